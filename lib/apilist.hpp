M( gdxAcronymAdd )
M( gdxAcronymCount )
M( gdxAcronymGetInfo )
M( gdxAcronymGetMapping )
M( gdxAcronymIndex )
M( gdxAcronymName )
M( gdxAcronymNextNr )
M( gdxAcronymSetInfo )
M( gdxAcronymValue )
M( gdxAddAlias )
M( gdxAddSetText )
M( gdxAutoConvert )
M( gdxClose )
M( gdxDataErrorCount )
M( gdxDataErrorRecord )
M( gdxDataErrorRecordX )
M( gdxDataReadDone )
M( gdxDataReadFilteredStart )
M( gdxDataReadMap )
M( gdxDataReadMapStart )
M( gdxDataReadRaw )
M( gdxDataReadRawFast )
M( gdxDataReadRawFastEx )
M( gdxDataReadRawFastFilt )
M( gdxDataReadRawStart )
M( gdxDataReadSlice )
M( gdxDataReadSliceStart )
M( gdxDataReadStr )
M( gdxDataReadStrStart )
M( gdxDataSliceUELS )
M( gdxDataWriteDone )
M( gdxDataWriteMap )
M( gdxDataWriteMapStart )
M( gdxDataWriteRaw )
M( gdxDataWriteRawStart )
M( gdxDataWriteRawStartKeyBounds )
M( gdxDataWriteStr )
M( gdxDataWriteStrStart )
M( gdxGetDLLVersion )
M( gdxErrorCount )
M( gdxErrorStr )
M( gdxFileInfo )
M( gdxFileVersion )
M( gdxFilterExists )
M( gdxFilterRegister )
M( gdxFilterRegisterDone )
M( gdxFilterRegisterStart )
M( gdxFindSymbol )
M( gdxGetElemText )
M( gdxGetLastError )
M( gdxGetMemoryUsed )
M( gdxGetSpecialValues )
M( gdxGetUEL )
M( gdxMapValue )
M( gdxOpenAppend )
M( gdxOpenRead )
M( gdxOpenReadEx )
M( gdxOpenWrite )
M( gdxOpenWriteEx )
M( gdxResetSpecialValues )
M( gdxSetHasText )
M( gdxSetReadSpecialValues )
M( gdxSetSpecialValues )
M( gdxSetTextNodeNr )
M( gdxSetTraceLevel )
M( gdxSymbIndxMaxLength )
M( gdxSymbMaxLength )
M( gdxSymbolAddComment )
M( gdxSymbolGetComment )
M( gdxSymbolGetDomain )
M( gdxSymbolGetDomainX )
M( gdxSymbolDim )
M( gdxSymbolInfo )
M( gdxSymbolInfoX )
M( gdxSymbolSetDomain )
M( gdxSymbolSetDomainX )
M( gdxSystemInfo )
M( gdxUELMaxLength )
M( gdxUELRegisterDone )
M( gdxUELRegisterMap )
M( gdxUELRegisterMapStart )
M( gdxUELRegisterRaw )
M( gdxUELRegisterRawStart )
M( gdxUELRegisterStr )
M( gdxUELRegisterStrStart )
M( gdxUMFindUEL )
M( gdxUMUelGet )
M( gdxUMUelInfo )
M( gdxGetDomainElements )
M( gdxCurrentDim )
M( gdxRenameUEL )
M( gdxStoreDomainSets )
M( gdxStoreDomainSetsSet )
M( gdxAllowBogusDomains )
M( gdxAllowBogusDomainsSet )
M( gdxMapAcronymsToNaN )
M( gdxMapAcronymsToNaNSet )
