From fbe9bee1cb859c541fa18dcb7e562c93696d3027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:22 +0000
Subject: [PATCH 01/81] fix: mapped reading delivers all keys even if the
 caller's key array was changed between calls

When the result of a mapped or filtered read is known to be sorted,
gdxDataReadMap only stored the keys that changed since the previous record,
so a caller passing a fresh array got garbage in the leading positions.
---
 src/gxfile.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 2f4f788..72431c2 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2823,16 +2823,15 @@ int TGXFileObj::gdxDataReadMap( [[maybe_unused]] int RecNr, int *KeyInt, double
    assert( fmode == fr_mapr_data && "fr_mapr_data expected" );
 
    bool AddNew {}, AddError {}, BadError {};
-   int FIDim { FCurrentDim };
 
 again:
    if( !DoRead( Values, DimFrst ) ) return false;
-   if( FIDim < DimFrst ) DimFrst = FIDim;
-   FIDim = FCurrentDim;
    if( DimFrst > 0 )
    {
+      // always deliver all keys: the caller's array need not hold the keys of the previous record
+      AddNew = false;
       bool loopDone {};
-      for( int D { DimFrst - 1 }; D < FCurrentDim && !loopDone; D++ )
+      for( int D {}; D < FCurrentDim && !loopDone; D++ )
       {
          assert( D >= 0 && D < GLOBAL_MAX_INDEX_DIM );
          const auto &obj = DomainList[D];
@@ -2854,7 +2853,6 @@ again:
                else
                {
                   AddError = true;
-                  FIDim = D + 1;
                   loopDone = true;
                }
                break;
@@ -2864,7 +2862,6 @@ again:
                else
                {
                   AddError = true;// NOTE: Not covered by unit tests yet.
-                  FIDim = D + 1;
                   loopDone = true;
                }
                break;
-- 
2.43.0


From 6685d03ef64a0f54fbf76c748552d2441bd97d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:05 +0000
Subject: [PATCH 02/81] fix: store symbol comments longer than 255 characters
 terminated

---
 src/gxfile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 72431c2..6856581 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3540,7 +3540,8 @@ int TGXFileObj::gdxSymbolAddComment( int SyNr, const char *Txt )
    if( !SyPtr->SCommentsList )
       SyPtr->SCommentsList = std::make_optional<TCommentsList>();
    // AS: Limit to 255 characters since this will be stored as ShortString when saving comments list to GDX file on gdxClose
-   SyPtr->SCommentsList->Add( Txt, std::min<int>( 255, (int) std::strlen( Txt ) ) );
+   const std::string comment( Txt, std::min<size_t>( 255, std::strlen( Txt ) ) );
+   SyPtr->SCommentsList->Add( comment.c_str(), comment.length() );
    return true;
 }
 
-- 
2.43.0


From f2f5bd4dbd6739b8df805a5f75beb2ebd5d9de94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:43 +0000
Subject: [PATCH 03/81] fix: trimming a label of more than 255 characters stays
 inside its buffer

---
 src/gdlib/utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gdlib/utils.cpp b/src/gdlib/utils.cpp
index 602c8e7..0e3803c 100644
--- a/src/gdlib/utils.cpp
+++ b/src/gdlib/utils.cpp
@@ -176,8 +176,10 @@ const char *trimRight( const char *s,
       if( static_cast<unsigned char>( s[i] ) > 32 )
          slen = i;
    if( ++slen == i ) return s;
-   std::memcpy( storage, s, slen );
-   storage[slen] = '\0';
+   // storage is a short string (255 characters); slen is still the complete length
+   const int copyLen { std::min( slen, 255 ) };
+   std::memcpy( storage, s, copyLen );
+   storage[copyLen] = '\0';
    return storage;
 }
 
-- 
2.43.0


From 55a6726e2e2812bcef91c0f6216da170d86ed012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:56 +0000
Subject: [PATCH 04/81] fix: refuse negative user indices and user indices
 already used by another element

---
 src/gxfile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 6856581..0f326b8 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3784,6 +3784,9 @@ int TUELTable::AddUsrNew( const char *s, size_t slen )
 
 int TUELTable::AddUsrIndxNew( const char *s, size_t slen, int UelNr )
 {
+   // refuse negative user indices and user indices that already belong to another element
+   if( UelNr < 0 ) return -1;
+   if( const int occupant = UsrUel2Ent->GetMapping( UelNr ); occupant >= 1 && IndexOf( s ) != occupant ) return -1;
    const int EN { AddObject( s, slen, -1 ) };
    int res { *GetObject( EN ) };
    if( res < 0 )
-- 
2.43.0


From 13df731419ac4878ecd21177c0f64e9a1a03e068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:23 +0000
Subject: [PATCH 05/81] fix: a second record for a scalar is reported as a
 duplicate

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 0f326b8..19c1c77 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1273,7 +1273,7 @@ bool TGXFileObj::DoWrite( const int *AElements, const double *AVals )
    }
    if( FDim > FCurrentDim )
    {
-      if( FCurrentDim > 0 && DataCount >= 1 )
+      if( DataCount >= 1 )
       {
          ReportError( ERR_DATADUPLICATE );
          AddToErrorList( AElements, AVals );
-- 
2.43.0


From 59072a1c85ef27ec09a3e69daaebf009d5a5d976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:24 +0000
Subject: [PATCH 06/81] fix: a domain given by an alias is resolved completely
 before its data is required

---
 src/gxfile.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 19c1c77..9123060 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2493,10 +2493,8 @@ int TGXFileObj::gdxSymbolSetDomain( const char **DomainIDs )
          SyNr = DomSy;
          do {
             const auto *obj = ( *NameList->GetObject( SyNr ) );
-            if(!AllowBogusDomain &&
-                obj->SDim == 1 &&
-                in(obj->SDataType, dt_set, dt_alias) &&
-                !(obj->SDataType == dt_alias ? *NameList->GetObject( obj->SUserInfo ) : obj)->SSetBitMap)
+            // an alias is followed to its set (or the universe) before its data is required
+            if( !AllowBogusDomain && obj->SDim == 1 && obj->SDataType == dt_set && !obj->SSetBitMap )
             {
                ReportError( ERR_NODOMAINDATA );
                return false;
-- 
2.43.0


From 7365aeda920b5839ccf43fb39ff3cdc71bdb59e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:25 +0000
Subject: [PATCH 07/81] fix: mapped reading of the universe reports the first
 changed dimension of its first record

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 9123060..6082b22 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -979,11 +979,11 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
       return 1;
    }
 
+   std::fill_n( PrevElem.begin(), FCurrentDim, -1 );
    if( !ReadUniverse )
    {
       CurSyPtr->SScalarFrst = false;
       std::fill_n( LastElem.begin(), FCurrentDim, INDEX_INITIAL );
-      std::fill_n( PrevElem.begin(), FCurrentDim, -1 );
       for( int D {}; D < FCurrentDim; D++ )
       {
          MinElem[D] = FFile->ReadInteger();
-- 
2.43.0


From ebcf731933ba380e96da125de6ddcfebb56ed52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:10 +0000
Subject: [PATCH 08/81] fix: reads that cannot be started return failure
 instead of going on

---
 src/gxfile.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 6082b22..90238b9 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3129,7 +3129,7 @@ int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomai
    TIndex XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
 
    // Following call also clears ErrorList
-   PrepareSymbolRead( "gdxGetDomain"s, SyNr, XDomains.data(), fr_raw_data );
+   if( PrepareSymbolRead( "gdxGetDomain"s, SyNr, XDomains.data(), fr_raw_data ) < 0 ) return false;
    int AFDim;
    std::array<double, GMS_VAL_SCALE + 1> AVals {};
    while( DoRead( AVals.data(), AFDim ) )
@@ -3294,7 +3294,7 @@ int TGXFileObj::gdxDataReadSliceStart( int SyNr, int *ElemCounts )
    //-- Note: PrepareSymbolRead checks for the correct status
    const auto XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
    SliceSyNr = SyNr;
-   PrepareSymbolRead( "DataReadSliceStart"s, SliceSyNr, XDomains.data(), fr_raw_data );
+   if( PrepareSymbolRead( "DataReadSliceStart"s, SliceSyNr, XDomains.data(), fr_raw_data ) < 0 ) return false;
 
    memset( ElemCounts, 0, sizeof( int ) * GLOBAL_MAX_INDEX_DIM );
 
@@ -3354,7 +3354,7 @@ int TGXFileObj::gdxDataReadSlice( const char **UelFilterStr, int &Dimen, TDataSt
    fmode = fr_init;
    if( !GoodIndx ) return false;
    const auto XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
-   PrepareSymbolRead( "DataReadSlice"s, SliceSyNr, XDomains.data(), fr_slice );
+   if( PrepareSymbolRead( "DataReadSlice"s, SliceSyNr, XDomains.data(), fr_slice ) < 0 ) return false;
    TgdxValues Values;
    TgdxUELIndex HisIndx;
    int FDim;
@@ -3667,6 +3667,7 @@ int TGXFileObj::gdxDataReadRawFast( int SyNr, TDataStoreProc_t DP, int &NrRecs )
 {
    const auto XDomains { arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED ) };
    NrRecs = PrepareSymbolRead( "gdxDataReadRawFast"s, SyNr, XDomains.data(), fr_raw_data );
+   if( NrRecs < 0 ) return false;
    std::array<double, GMS_VAL_SCALE + 1> AVals {};
    int AFDim;
    while( DoRead( AVals.data(), AFDim ) )
@@ -3682,6 +3683,7 @@ int TGXFileObj::gdxDataReadRawFastEx( int SyNr, TDataStoreExProc_t DP, int &NrRe
    //do not know dimension yet
    std::fill( XDomains.begin(), XDomains.end(), DOMC_UNMAPPED );
    NrRecs = PrepareSymbolRead( "gdxDataReadRawFastEx"s, SyNr, XDomains.data(), fr_raw_data );
+   if( NrRecs < 0 ) return false;
    std::array<double, valscale + 1> AVals {};
    int AFDim;
    if( gdxDataReadRawFastEx_DP_CallByRef )
-- 
2.43.0


From ad8c07285ffb19936639d1a08bb5bb85252898bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:29 +0000
Subject: [PATCH 09/81] fix: acronym table positions outside of the table are
 refused

---
 src/gxfile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 90238b9..e868cd8 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2989,7 +2989,7 @@ int TGXFileObj::gdxAcronymSetInfo( int N, const char *AName, const char *Txt, in
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymSetInfo: "s + AName + " index = " + rtl::sysutils_p3::IntToStr( AIndx ) ); // NOTE: Not covered by unit tests yet.
 
-   if( ErrorCondition( N >= 1 || N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    if( auto &obj = ( *AcronymList )[N - 1];
       in( fmode, AnyWriteMode ) || obj.AcrAutoGen )
    {
@@ -3025,7 +3025,7 @@ int TGXFileObj::gdxAcronymGetMapping( int N, int &orgIndx, int &newIndx, int &au
 {
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymGetMapping: N = "s + rtl::sysutils_p3::IntToStr( N ) ); // NOTE: Not covered by unit tests yet.
-   if( ErrorCondition( N >= 1 || N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    const auto &obj = ( *AcronymList )[N - 1];
    orgIndx = obj.AcrMap;
    newIndx = obj.AcrReadMap;
-- 
2.43.0


From 9738bcd291788784393b720f7be9596a0762b47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:59 +0000
Subject: [PATCH 10/81] fix: an acronym value without a name is called
 UnknownAcronymN

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index e868cd8..e7b7a9f 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3246,7 +3246,7 @@ int TGXFileObj::gdxAcronymName( double V, char *AName )
    else
    {
       const int N { AcronymList->FindEntry( Indx ) };
-      assignStrToBuf( N < 0 ? "UnknownAcronym"s + rtl::sysutils_p3::IntToStr( Indx ) : ( *AcronymList )[N].AcrName, AName, GMS_SSSIZE );
+      assignStrToBuf( N < 0 || ( *AcronymList )[N].AcrName.empty() ? "UnknownAcronym"s + rtl::sysutils_p3::IntToStr( Indx ) : ( *AcronymList )[N].AcrName, AName, GMS_SSSIZE );
       return true;
    }
    return false;
-- 
2.43.0


From cc77c19d020b8ef00c6f1adbc132d7d45966098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:31 +0000
Subject: [PATCH 11/81] fix: adding an acronym again with the same index
 returns zero

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index e7b7a9f..f0e9dcd 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3222,7 +3222,7 @@ int TGXFileObj::gdxAcronymAdd( const char *AName, const char *Txt, int AIndx )
       {
          // NOTE: Not covered by unit tests yet.
          if( ErrorCondition( obj.AcrMap == AIndx, ERR_ACROBADADDITION ) ) return -1;
-         return N;
+         return 0;
       }
       if( ErrorCondition( obj.AcrMap != AIndx, ERR_ACROBADADDITION ) ) return -1;
    }
-- 
2.43.0


From 8b33cdae43bb57f6037f821880f0c25f454ef2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:52 +0000
Subject: [PATCH 12/81] fix: gdxClose completes the file when called during
 element registration or before the first record of a symbol

---
 src/gxfile.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index f0e9dcd..30fb798 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -537,8 +537,10 @@ int TGXFileObj::gdxClose()
       debugStream << "gdxClose("s << ( FFile ? FFile->GetFileName() : ""s ) << ")\n"s;// NOTE: Not covered by unit tests yet.
 
    std::string fnConv;
-   if( in( fmode, fw_raw_data, fw_map_data, fw_str_data ) )// unfinished write
-      gdxDataWriteDone();                                         // NOTE: Not covered by unit tests yet.
+   if( in( fmode, f_raw_elem, f_map_elem, f_str_elem ) && fmode_AftReg == fw_init )// unfinished registration
+      fmode = fw_init;
+   if( in( fmode, fw_raw_data, fw_map_data, fw_str_data, fw_dom_raw, fw_dom_map, fw_dom_str ) )// unfinished write
+      gdxDataWriteDone();                                                                      // NOTE: Not covered by unit tests yet.
    if( fmode == fw_init )
    {
       fnConv = FFile->GetFileName();
-- 
2.43.0


From c8801fa45f375579e28868ef537622a53994a679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:35 +0000
Subject: [PATCH 13/81] fix: queries and acronym calls without an open file
 report failure instead of crashing

---
 src/gxfile.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 30fb798..dc3af81 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1743,6 +1743,7 @@ int TGXFileObj::gdxFindSymbol( const char *SyId, int &SyNr )
       SyNr = NameList->IndexOf( SyId );
       return SyNr >= 1;
    }
+   SyNr = -1;
    return false;// NOTE: Not covered by unit tests yet.
 }
 
@@ -2375,7 +2376,7 @@ int TGXFileObj::gdxSetSpecialValues( const double *AVals )
 
 int TGXFileObj::gdxSymbolGetDomain( int SyNr, int *DomainSyNrs )
 {
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    const TgdxSymbRecord *SyPtr { ( *NameList->GetObject( SyNr ) ) };
    for( int D {}; D < SyPtr->SDim; D++ )
       DomainSyNrs[D] = !SyPtr->SDomSymbols ? 0 : SyPtr->SDomSymbols[D];
@@ -2384,7 +2385,7 @@ int TGXFileObj::gdxSymbolGetDomain( int SyNr, int *DomainSyNrs )
 
 int TGXFileObj::gdxSymbolGetDomainX( int SyNr, char **DomainIDs )
 {
-   if( ErrorCondition( !NameList->empty() && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return 0;
+   if( ErrorCondition( NameList && !NameList->empty() && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return 0;
    const TgdxSymbRecord *SyPtr { ( *NameList->GetObject( SyNr ) ) };
 
    for( int D {}; D < SyPtr->SDim; D++ )
@@ -2549,7 +2550,7 @@ int TGXFileObj::gdxSymbolSetDomain( const char **DomainIDs )
 int TGXFileObj::gdxSymbolSetDomainX( int SyNr, const char **DomainIDs )
 {
    // check for write or append only
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    TgdxSymbRecord * const SyPtr = *NameList->GetObject( SyNr );
 
    if( verboseTrace && TraceLevel == TraceLevels::trl_all )
@@ -2966,7 +2967,7 @@ int TGXFileObj::gdxAcronymCount() const
 
 int TGXFileObj::gdxAcronymGetInfo( int N, char *AName, char *Txt, int &AIndx ) const
 {
-   if( N < 1 || N > AcronymList->size() )
+   if( !AcronymList || N < 1 || N > AcronymList->size() )
    {
       AName[0] = Txt[0] = '\0';
       AIndx = 0;
@@ -2991,7 +2992,7 @@ int TGXFileObj::gdxAcronymSetInfo( int N, const char *AName, const char *Txt, in
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymSetInfo: "s + AName + " index = " + rtl::sysutils_p3::IntToStr( AIndx ) ); // NOTE: Not covered by unit tests yet.
 
-   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( AcronymList && N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    if( auto &obj = ( *AcronymList )[N - 1];
       in( fmode, AnyWriteMode ) || obj.AcrAutoGen )
    {
@@ -3027,7 +3028,7 @@ int TGXFileObj::gdxAcronymGetMapping( int N, int &orgIndx, int &newIndx, int &au
 {
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymGetMapping: N = "s + rtl::sysutils_p3::IntToStr( N ) ); // NOTE: Not covered by unit tests yet.
-   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( AcronymList && N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    const auto &obj = ( *AcronymList )[N - 1];
    orgIndx = obj.AcrMap;
    newIndx = obj.AcrReadMap;
@@ -3114,7 +3115,7 @@ int TGXFileObj::gdxSetTextNodeNr( int TxtNr, int Node )
 int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomainIndexProc_t DP, int &NrElem, void *UPtr )
 {
    gdxGetDomainElements_DP = DP;
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    int Dim { ( *NameList->GetObject( SyNr ) )->SDim };
    if( !Dim || ErrorCondition( DimPos >= 1 && DimPos <= Dim, ERR_BADDIMENSION ) ) return false;
    const TDFilter *DFilter = FilterNr == DOMC_EXPAND ? nullptr : FilterList->FindFilter( FilterNr );
@@ -3217,6 +3218,7 @@ int TGXFileObj::gdxSetTraceLevel( int N, const char *s )
 
 int TGXFileObj::gdxAcronymAdd( const char *AName, const char *Txt, int AIndx )
 {
+   if( ErrorCondition( AcronymList != nullptr, ERR_BADMODE ) ) return -1;
    for( int N {}; N < (int) AcronymList->size(); N++ )
    {
       const auto &obj = ( *AcronymList )[N];
@@ -3247,7 +3249,7 @@ int TGXFileObj::gdxAcronymName( double V, char *AName )
       AName[0] = '\0';
    else
    {
-      const int N { AcronymList->FindEntry( Indx ) };
+      const int N { AcronymList ? AcronymList->FindEntry( Indx ) : -1 };
       assignStrToBuf( N < 0 || ( *AcronymList )[N].AcrName.empty() ? "UnknownAcronym"s + rtl::sysutils_p3::IntToStr( Indx ) : ( *AcronymList )[N].AcrName, AName, GMS_SSSIZE );
       return true;
    }
@@ -3519,6 +3521,7 @@ int TGXFileObj::gdxSymbIndxMaxLength( int SyNr, int *LengthInfo )
 int TGXFileObj::gdxSymbMaxLength() const
 {
    int acc {};
+   if( !NameList ) return acc;
    for( int N { 1 }; N <= NameList->Count(); N++ )
       acc = std::max<int>( acc, static_cast<int>( std::strlen( NameList->GetString( N ) ) ) );
    return acc;
@@ -3562,7 +3565,7 @@ int TGXFileObj::gdxSymbolGetComment( int SyNr, int N, char *Txt )
 
 int TGXFileObj::gdxUELMaxLength() const
 {
-   return UELTable->GetMaxUELLength();
+   return UELTable ? UELTable->GetMaxUELLength() : 0;
 }
 
 int TGXFileObj::gdxUMFindUEL( const char *Uel, int &UelNr, int &UelMap )
-- 
2.43.0


From db8c3ee1e59d4cf5dad252097b967e09007f7fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:13 +0000
Subject: [PATCH 14/81] fix: calls refused in the wrong mode leave the object's
 mode and pending data alone

---
 src/gxfile.cpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index dc3af81..7b3b555 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -732,12 +732,12 @@ bool TGXFileObj::PrepareSymbolWrite( const std::string_view Caller,
                                      int AType,
                                      int AUserInfo )
 {
+   if( !MajorCheckMode( Caller, fw_init ) ) return false;// the pending operation is not affected
+
    CurSyPtr = nullptr;
    ErrorList = nullptr;
    SortList = nullptr;
 
-   if( !MajorCheckMode( Caller, fw_init ) ) return false;
-
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "Symbol = "s + AName + ", Dim = "s + rtl::sysutils_p3::IntToStr( ADim ) );
 
@@ -882,17 +882,13 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
 {
    if( in( fmode, fr_str_data, fr_map_data, fr_mapr_data, fr_raw_data ) )
       gdxDataReadDone();// NOTE: Not covered by unit tests yet.
+   if( !MajorCheckMode( Caller, fr_init ) ) return -1;// the pending operation is not affected
    NrMappedAdded = 0;
    ErrorList = nullptr;
    CurSyPtr = nullptr;
    SortList = nullptr;
+   ReadPtr = std::nullopt;
 
-   if( !MajorCheckMode( Caller, fr_init ) )
-   {
-      // NOTE: Not covered by unit tests yet.
-      fmode = fr_init;
-      return -1;
-   }
    ReadUniverse = !SyNr;
    if( !ReadUniverse )
    {
@@ -1779,14 +1775,9 @@ int TGXFileObj::gdxDataReadStr( char **KeyStr, double *Values, int &DimFrst )
 int TGXFileObj::gdxDataReadDone()
 {
    static const TgxModeSet AllowedMode { fr_init, fr_raw_data, fr_map_data, fr_mapr_data, fr_str_data, fr_slice };
+   if( !MajorCheckMode( "DataReadDone"s, AllowedMode ) ) return false;// the pending operation is not affected
    SortList = nullptr;
    CurSyPtr = nullptr;
-   if( !MajorCheckMode( "DataReadDone"s, AllowedMode ) )
-   {
-      // NOTE: Not covered by unit tests yet.
-      fmode = fr_init;
-      return false;
-   }
    /*if( fmode == fr_slice )
    {
       for( int D {}; D < GLOBAL_MAX_INDEX_DIM; D++ )
@@ -3663,8 +3654,8 @@ int TGXFileObj::gdxDataReadRawFastFilt( int SyNr, const char **UelFilterStr, TDa
          }
          res = true;
       }
+      gdxDataReadDone();
    }
-   gdxDataReadDone();
    return res;
 }
 
-- 
2.43.0


From 37d288ae3e84655d01cb61fe35e2373346f512f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:26 +0000
Subject: [PATCH 15/81] fix: no current symbol after closing or opening a file

---
 src/gxfile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 7b3b555..0d89472 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -642,6 +642,7 @@ int TGXFileObj::gdxClose()
       }
       NameList = nullptr;
    }
+   CurSyPtr = nullptr;
 
    FFile = nullptr;
    SetTextList = nullptr;
@@ -1990,6 +1991,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       CurSyPtr->SDomStrings = nullptr;
       CurSyPtr->SSyNr = NameList->StoreObject( S.data(), Slen, CurSyPtr );
    }
+   CurSyPtr = nullptr;// no current symbol yet
    if( ErrorCondition( FFile->ReadString() == MARK_SYMB, ERR_OPEN_SYMBOLMARKER2 ) ) return FileErrorNr();
 
    // reading UEL table
-- 
2.43.0


From 058c50529c7681e34ddfb5c3d8977bda0647cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:25 +0000
Subject: [PATCH 16/81] fix: gdxDataReadMap called again after the last record
 keeps reporting the end

---
 src/gxfile.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 0d89472..e272d35 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2819,7 +2819,13 @@ int TGXFileObj::gdxDataReadMap( [[maybe_unused]] int RecNr, int *KeyInt, double
    bool AddNew {}, AddError {}, BadError {};
 
 again:
-   if( !DoRead( Values, DimFrst ) ) return false;
+   if( !DoRead( Values, DimFrst ) )
+   {
+      // further calls must not read beyond the end of the symbol: continue with an empty list of records
+      fmode = fr_map_data;
+      ReadPtr = std::nullopt;
+      return false;
+   }
    if( DimFrst > 0 )
    {
       // always deliver all keys: the caller's array need not hold the keys of the previous record
-- 
2.43.0


From 337b31eda4cc1a6c6a3535aaa3c5e2ac3e8349d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:12 +0000
Subject: [PATCH 17/81] fix: texts longer than the output buffer are cut
 instead of overrunning it or being dropped

---
 src/gdlib/utils.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/gdlib/utils.hpp b/src/gdlib/utils.hpp
index 25e0508..77661cf 100644
--- a/src/gdlib/utils.hpp
+++ b/src/gdlib/utils.hpp
@@ -695,12 +695,11 @@ int strCompare( const char *S1,
 
 inline void assignStrToBuf( const std::string &s, char *buf, const int outBufSize = 256 )
 {
-   if( static_cast<int>( s.length() ) > outBufSize ) return;
-#if defined( _WIN32 )
-   std::memcpy( buf, s.c_str(), s.length() + 1 );
-#else
-   std::strcpy( buf, s.c_str() );
-#endif
+   // keep as many characters as fit with the terminating zero
+   const auto len { std::min<int>( static_cast<int>( s.length() ), outBufSize - 1 ) };
+   if( len < 0 ) return;
+   std::memcpy( buf, s.c_str(), len );
+   buf[len] = '\0';
 }
 
 inline void assignPCharToBuf( const char *s, const size_t slen, char *buf, const size_t outBufSize = 256 )
-- 
2.43.0


From 8f622a12c30343ca1816ac5de9f66cfe9f8857fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:29 +0000
Subject: [PATCH 18/81] fix: gdxClose writes the index marker after the indices

---
 src/gxfile.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index e272d35..53b84ac 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -622,12 +622,14 @@ int TGXFileObj::gdxClose()
       FFile->WriteString( MARK_DOMS );
 
       // This must be at the very end!!!
-      FFile->SetPosition( MajorIndexPosition );
+      // The marker in front of the indices comes last: a reader accepts the file only when the indices are complete
+      FFile->SetPosition( MajorIndexPosition + static_cast<int64_t>( sizeof( int ) ) );
       FFile->SetCompression( false );
-      FFile->WriteInteger( MARK_BOI );
       // Note that we have room for 10 indices; if we need more, create an overflow link in the 10th position.
       for( const int64_t offset: { SymbPos, UELPos, SetTextPos, AcronymPos, NextWritePosition, DomStrPos } )
          FFile->WriteInt64( offset );
+      FFile->SetPosition( MajorIndexPosition );
+      FFile->WriteInteger( MARK_BOI );
    }
 
    int res { FFile ? FFile->GetLastIOResult() : 1 };
-- 
2.43.0


From 29f5461f02d0dcdb1f12e75300bc151ced61de5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:12 +0000
Subject: [PATCH 19/81] fix: closing an append session invalidates the old
 indices before replacing the tables

---
 src/gxfile.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 53b84ac..ad13612 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -544,6 +544,12 @@ int TGXFileObj::gdxClose()
    if( fmode == fw_init )
    {
       fnConv = FFile->GetFileName();
+      if( AppendActive )
+      {// the tables of the existing file are replaced: nobody may use its indices until the new ones are there
+         FFile->SetCompression( false );
+         FFile->SetPosition( MajorIndexPosition );
+         FFile->WriteInteger( 0 );
+      }
       FFile->SetCompression( CompressOut );
       FFile->SetPosition( NextWritePosition );
       int64_t SymbPos = NextWritePosition;
@@ -655,6 +661,7 @@ int TGXFileObj::gdxClose()
    FilterList = nullptr;
    AcronymList = nullptr;
    MapSetText = nullptr;
+   AppendActive = false;
 
    fmode = f_not_open;
    fstatus = stat_notopen;
@@ -3439,9 +3446,9 @@ int TGXFileObj::gdxMapValue( double D, int &sv )
 int TGXFileObj::gdxOpenAppend( const char *FileName, const char *Producer, int &ErrNr )
 {
    FProducer2 = Producer;
-   AppendActive = true;
    const int res { gdxOpenReadXX( FileName, fmOpenReadWrite, 0, ErrNr ) };
    if( !res || ErrNr != 0 ) return res;
+   AppendActive = true;
    if( VersionRead < 7 )
    {
       ReportError( ERR_FILETOOLDFORAPPEND );
-- 
2.43.0


From 9f65fea3badf20046d66558af2fbfaba19556f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:38 +0000
Subject: [PATCH 20/81] fix: reading a damaged file does not use uninitialised
 or out-of-bounds memory in the streams

---
 src/gdlib/gmsstrm.cpp | 38 +++++++++++++++++++++-----------------
 src/gdlib/gmsstrm.hpp | 11 ++++++-----
 src/gdlib/strhash.hpp |  8 ++++----
 3 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 9423d61..886b9d4 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -351,22 +351,22 @@ std::string TXStream::ReadString()
    if( !Read( &len, 1 ) || !len ) return ""s;
    std::string s;
    s.resize( len );
-   Read( s.data(), len );
-   if(len != s.size())
-      s.resize( len );
+   s.resize( Read( s.data(), len ) );
    return s;
 }
 
-void TXStream::ReadSString(char *s, uint8_t &len)
+bool TXStream::ReadSString(char *s, uint8_t &len)
 {
    if( Paranoid ) ParCheck( RWType::rw_string );
-   if( !Read( &len, 1 ) || !len )
-   {
-      s[0] = '\0';
-      return;
-   }
-   Read( s, len );
-   s[len] = '\0';
+   len = 0;
+   s[0] = '\0';
+   if( !Read( &len, 1 ) ) return false;
+   if( !len ) return true;
+   const auto nrRead = Read( s, len );
+   s[nrRead] = '\0';
+   if( nrRead == len ) return true;
+   len = static_cast<uint8_t>( nrRead );
+   return false;
 }
 
 double TXStream::ReadDouble()
@@ -607,14 +607,18 @@ bool TBufferedFileStream::FillBuffer()
       else
       {
          const auto WLen = ui16( ( CBufPtr->cxHeader.cxB1 << 8 ) + CBufPtr->cxHeader.cxB2 );
-         if( !CBufPtr->cxHeader.cxTyp ) NrLoaded = TXFileStream::Read( BufPtr.data(), WLen );
-         else
+         unsigned long XLen = 0;
+         if( !CBufPtr->cxHeader.cxTyp )
+         {
+            if( WLen <= BufSize ) XLen = TXFileStream::Read( BufPtr.data(), WLen );
+         }
+         else if( WLen <= CBufSize && TXFileStream::Read( &CBufPtr->cxData, WLen ) == WLen )
          {
-            TXFileStream::Read( &CBufPtr->cxData, WLen );
-            unsigned long XLen = BufSize;// we need a var parameter
-            uncompress( BufPtr.data(), &XLen, &CBufPtr->cxData, WLen );
-            NrLoaded = ui32(XLen);
+            XLen = BufSize;// we need a var parameter
+            if( uncompress( BufPtr.data(), &XLen, &CBufPtr->cxData, WLen ) ) XLen = 0;
          }
+         NrLoaded = ui32(XLen);
+         if( !NrLoaded ) SetLastIOResult( -100001 );// damaged block: file I/O error, check with gxdefs.pas
       }
    }
    NrRead = NrWritten = 0;
diff --git a/src/gdlib/gmsstrm.hpp b/src/gdlib/gmsstrm.hpp
index 0f547d1..3238cd7 100644
--- a/src/gdlib/gmsstrm.hpp
+++ b/src/gdlib/gmsstrm.hpp
@@ -133,7 +133,7 @@ protected:
    T ReadValue( RWType rwt )
    {
       if( Paranoid ) ParCheck( rwt );
-      T res;
+      T res {};// stays zero at the end of the file
 #if !defined( NDEBUG ) && defined(__IN_CPPMEX__)
       auto numBytesRead { Read( &res, sizeof( T ) ) };
       // is not required to generally hold and code automatically detects EOF otherwise
@@ -177,7 +177,8 @@ public:
    void WritePChar( const char *s, int L );
 
    std::string ReadString();
-   void ReadSString(char *s, uint8_t &len);
+   // returns false (and what there is) when the file ends before the string does
+   bool ReadSString(char *s, uint8_t &len);
    virtual double ReadDouble();
    virtual int ReadInteger();
    uint8_t ReadByte();
@@ -282,11 +283,11 @@ class TMiBufferedStream : public TBufferedFileStream
    T ReadValueOrdered( RWType rwt, bool order_type )
    {
       if( Paranoid ) ParCheck( rwt );
-      T res;
+      T res {};// stays zero at the end of the file
       if( !order_type ) Read( &res, sizeof( T ) );
       else
       {
-         T tmp;
+         T tmp {};
          Read( &tmp, sizeof( T ) );
          reverseBytesMax8( &tmp, &res, sizeof( T ) );
       }
@@ -296,7 +297,7 @@ class TMiBufferedStream : public TBufferedFileStream
    template<typename T>
    void initOrderCommon( uint8_t &order_type, uint8_t &size_type, T patConstant )
    {
-      T v1, v2;
+      T v1 {}, v2 {};
       Read( &size_type, sizeof( uint8_t ) );
       if( size_type != sizeof( T ) )
       {
diff --git a/src/gdlib/strhash.hpp b/src/gdlib/strhash.hpp
index a672173..3d04779 100644
--- a/src/gdlib/strhash.hpp
+++ b/src/gdlib/strhash.hpp
@@ -531,12 +531,12 @@ void TXStrHashList<uint8_t>::LoadFromStream( T2 &s )
 {
    Clear();
    const int Cnt { s.ReadInteger() };
-   SetCapacity( Cnt );
+   SetCapacity( Cnt < 1 << 20 ? Cnt : 1 << 20 );// the count in the file is not reliable
    for( int N {}; N < Cnt; N++ )
    {
       char sbuf[256];
       uint8_t slen;
-      s.ReadSString( sbuf, slen );
+      if( !s.ReadSString( sbuf, slen ) ) break;
       StoreObject( sbuf, slen, 0 );
    }
 }
@@ -547,12 +547,12 @@ inline void TXStrHashList<int>::LoadFromStream( T2 &s )
 {
    Clear();
    const int Cnt { s.ReadInteger() };
-   SetCapacity( Cnt );
+   SetCapacity( Cnt < 1 << 20 ? Cnt : 1 << 20 );// the count in the file is not reliable
    for( int N {}; N < Cnt; N++ )
    {
       uint8_t slen;
       char sbuf[256];
-      s.ReadSString( sbuf, slen );
+      if( !s.ReadSString( sbuf, slen ) ) break;
       StoreObject( sbuf, slen, 0 );
    }
 }
-- 
2.43.0


From 5da3a8908674fb4e63493e384db424e73036cc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:58 +0000
Subject: [PATCH 21/81] fix: the tables and records of a damaged file are
 checked when it is read

---
 src/gdx.hpp    |   4 +-
 src/gxfile.cpp | 134 +++++++++++++++++++++++++++++++++----------------
 2 files changed, 94 insertions(+), 44 deletions(-)

diff --git a/src/gdx.hpp b/src/gdx.hpp
index 4bdb1da..43bb0d0 100644
--- a/src/gdx.hpp
+++ b/src/gdx.hpp
@@ -1756,7 +1756,7 @@ enum : uint8_t
 int fComprLev {};
 std::unique_ptr<TUELTable> UELTable;
 std::unique_ptr<TSetTextList> SetTextList {};
-std::unique_ptr<int[]> MapSetText {};
+std::vector<int> MapSetText {};// empty when the numbers in the file can be used as they are
 int FCurrentDim {};
 std::array<int, GLOBAL_MAX_INDEX_DIM> LastElem {}, PrevElem {}, MinElem {}, MaxElem {};
 std::array<std::array<char, GLOBAL_UEL_IDENT_SIZE>, GLOBAL_MAX_INDEX_DIM> LastStrElem {};
@@ -1840,6 +1840,8 @@ bool IsGoodNewSymbol( const char *s );
 bool ResultWillBeSorted( const int *ADomainNrs ) const;
 
 int gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int &ErrNr );
+void FreeTables();
+[[nodiscard]] bool IsKnownUel( int UelNr ) const;
 
 // This one is a helper function for a callback from a Fortran client
 void gdxGetDomainElements_DP_FC( int RawIndex, int MappedIndex, void *Uptr );
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index ad13612..3d28e8b 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -640,6 +640,22 @@ int TGXFileObj::gdxClose()
 
    int res { FFile ? FFile->GetLastIOResult() : 1 };
 
+   FreeTables();
+   AppendActive = false;
+
+   fmode = f_not_open;
+   fstatus = stat_notopen;
+
+   if( AutoConvert && !fnConv.empty() )
+   {
+      res = ConvertGDXFile( fnConv, CompressOut ? "C" : "U" );
+      if( res > 0 ) res += 100;
+   }
+   return res;
+}
+
+void TGXFileObj::FreeTables()
+{
    // Many free operations. Some not necessary anymore due to RAII pattern (out of scope -> destroy)
    if( NameList )
    {
@@ -660,18 +676,7 @@ int TGXFileObj::gdxClose()
    ErrorList = nullptr;
    FilterList = nullptr;
    AcronymList = nullptr;
-   MapSetText = nullptr;
-   AppendActive = false;
-
-   fmode = f_not_open;
-   fstatus = stat_notopen;
-
-   if( AutoConvert && !fnConv.empty() )
-   {
-      res = ConvertGDXFile( fnConv, CompressOut ? "C" : "U" );
-      if( res > 0 ) res += 100;
-   }
-   return res;
+   MapSetText.clear();
 }
 
 void TGXFileObj::InitErrors()
@@ -1033,7 +1038,7 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
                {
                   assert( D >= 0 && D < GLOBAL_MAX_INDEX_DIM );
                   const auto &obj = DomainList[D];
-                  if( LastElem[D] < 0 )
+                  if( !IsKnownUel( LastElem[D] ) )
                   {
                      // NOTE: Not covered by unit tests yet.
                      ReportError( ERR_BADELEMENTINDEX );
@@ -1102,7 +1107,7 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
                   for( int D2 { D + 1 }; D2 < FCurrentDim; D2++ )
                   {
                      assert( D2 >= 0 && D2 < GLOBAL_MAX_INDEX_DIM );
-                     if( LastElem[D2] < 0 )
+                     if( !IsKnownUel( LastElem[D2] ) )
                      {
                         ReportError( ERR_BADELEMENTINDEX );
                         AllocOk = false;// That is used as a signal below for something bad happend, i.e., an exception was thrown
@@ -1167,6 +1172,11 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
    }
 }
 
+bool TGXFileObj::IsKnownUel( int UelNr ) const
+{
+   return UelNr >= 1 && UelNr <= UELTable->size();
+}
+
 void TGXFileObj::SetError( int N )
 {
    if( N == 0 ) return;
@@ -1414,7 +1424,7 @@ bool TGXFileObj::DoRead( double *AVals, int &AFDim )
    }
 
    uint8_t B;
-   FFile->Read( &B, 1 );
+   if( ErrorCondition( FFile->Read( &B, 1 ) == 1, ERR_FILEERROR ) ) return false;
    if( B > DeltaForRead )
    {// relative change in last dimension
       if( B == 255 ) return false;
@@ -1424,7 +1434,7 @@ bool TGXFileObj::DoRead( double *AVals, int &AFDim )
    else
    {
       AFDim = B;
-      assert( AFDim >= 1 && AFDim <= GLOBAL_MAX_INDEX_DIM );
+      if( ErrorCondition( AFDim >= 1 && ( AFDim <= FCurrentDim || !FCurrentDim ), ERR_BADDIMENSION ) ) return false;
       for( int D { AFDim - 1 }; D < FCurrentDim; D++ )
       {
          assert( D >= 0 && D < GLOBAL_MAX_INDEX_DIM );
@@ -1447,7 +1457,7 @@ bool TGXFileObj::DoRead( double *AVals, int &AFDim )
       for( int DV { GMS_VAL_LEVEL }; DV <= LastDataField; DV++ )
       {
          uint8_t BSV;
-         FFile->Read( &BSV, 1 );
+         if( ErrorCondition( FFile->Read( &BSV, 1 ) == 1, ERR_FILEERROR ) ) return false;
          TgdxIntlValTyp SV { static_cast<TgdxIntlValTyp>( BSV ) };
          // Delphi doesn't bound check here and just writes adjacent junk
          // but we at least consistently write 0
@@ -1459,12 +1469,12 @@ bool TGXFileObj::DoRead( double *AVals, int &AFDim )
          }
          AVals[DV] = SV != vm_normal ? readIntlValueMapDbl[SV] : maybeRemap( FFile->ReadDouble() );
       }
-      if( MapSetText && AVals[GMS_VAL_LEVEL] != 0.0 && CurSyPtr->SDataType == dt_set )
+      if( !MapSetText.empty() && AVals[GMS_VAL_LEVEL] != 0.0 && CurSyPtr->SDataType == dt_set )
       {// remap settext number
          // NOTE: Not covered by unit tests yet.
          const double X { AVals[GMS_VAL_LEVEL] };
          if( const int D { ( utils::round<int>( X ) ) };
-            std::abs( X - D ) < 1e-12 && D >= 0 && D <= SetTextList->GetCapacity() )
+            std::abs( X - D ) < 1e-12 && D >= 0 && D < static_cast<int>( MapSetText.size() ) )
             AVals[GMS_VAL_LEVEL] = MapSetText[D];
       }
       if( verboseTrace && TraceLevel >= TraceLevels::trl_all )
@@ -1876,7 +1886,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
 
    auto FileErrorNr = [&] {
       ErrNr = LastError;
-      FFile = nullptr;
+      FreeTables();
       return false;
    };
 
@@ -1949,10 +1959,12 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
    FFile->SetCompression( DoUncompress );
    FFile->SetPosition( SymbPos );
    if( ErrorCondition( FFile->ReadString() == MARK_SYMB, ERR_OPEN_SYMBOLMARKER1 ) ) return FileErrorNr();
+   // the counts in the file are not reliable enough to allocate memory for them
+   constexpr int maxCapacityHint { 1 << 20 };
    int NrElem { FFile->ReadInteger() };
    NameList = std::make_unique<TNameList>();
    NameList->OneBased = true;
-   NameList->SetCapacity( NrElem );
+   NameList->SetCapacity( std::min( NrElem, maxCapacityHint ) );
    AcronymList = std::make_unique<TAcronymList>(true);
    FilterList = std::make_unique<TFilterList>();
    const int NrElemsOfSym = NrElem;
@@ -1960,12 +1972,14 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
    {
       uint8_t Slen;
       sstring S;
-      FFile->ReadSString(S.data(), Slen);
+      if( ErrorCondition( FFile->ReadSString( S.data(), Slen ) && Slen > 0, ERR_OPEN_SYMBOLMARKER2 ) ) return FileErrorNr();
       CurSyPtr = new TgdxSymbRecord {};
+      CurSyPtr->SSyNr = NameList->StoreObject( S.data(), Slen, CurSyPtr );
       CurSyPtr->SPosition = VersionRead <= 5 ? FFile->ReadInteger() : FFile->ReadInt64();
       CurSyPtr->SDim = FFile->ReadInteger();
       uint8_t B { FFile->ReadByte() };
       CurSyPtr->SDataType = static_cast<gdxSyType>( B );
+      if( ErrorCondition( CurSyPtr->SDim >= 0 && CurSyPtr->SDim <= GLOBAL_MAX_INDEX_DIM && B <= dt_alias, ERR_OPEN_SYMBOLMARKER2 ) ) return FileErrorNr();
       CurSyPtr->SUserInfo = FFile->ReadInteger();
       CurSyPtr->SDataCount = FFile->ReadInteger();
       CurSyPtr->SErrors = FFile->ReadInteger();
@@ -1991,18 +2005,33 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
             {
                sstring s;
                uint8_t slen;
-               FFile->ReadSString( s.data(), slen );
+               if( ErrorCondition( FFile->ReadSString( s.data(), slen ), ERR_OPEN_SYMBOLMARKER2 ) ) return FileErrorNr();
                CurSyPtr->SCommentsList->Add( s.data(), slen );
             }
          }
       }
       CurSyPtr->SSetBitMap = nullptr;
       CurSyPtr->SDomStrings = nullptr;
-      CurSyPtr->SSyNr = NameList->StoreObject( S.data(), Slen, CurSyPtr );
    }
    CurSyPtr = nullptr;// no current symbol yet
    if( ErrorCondition( FFile->ReadString() == MARK_SYMB, ERR_OPEN_SYMBOLMARKER2 ) ) return FileErrorNr();
 
+   // references between symbols
+   for( int N { 1 }; N <= NrElemsOfSym; N++ )
+   {
+      const auto *sym = *NameList->GetObject( N );
+      for( int D {}; sym->SDomSymbols && D < sym->SDim; D++ )
+         if( ErrorCondition( sym->SDomSymbols[D] >= 0 && sym->SDomSymbols[D] <= NrElemsOfSym, ERR_BADSYMBOLINDEX ) ) return FileErrorNr();
+      // an alias leads to a set or to the universe
+      for( int steps {}; sym && sym->SDataType == dt_alias; steps++ )
+      {
+         const int target { sym->SUserInfo };
+         if( ErrorCondition( target >= 0 && target <= NrElemsOfSym && steps < NrElemsOfSym, ERR_BADSYMBOLINDEX ) ) return FileErrorNr();
+         sym = target ? *NameList->GetObject( target ) : nullptr;
+         if( ErrorCondition( !sym || sym->SDataType == dt_set || sym->SDataType == dt_alias, ERR_ALIASSETEXPECTED ) ) return FileErrorNr();
+      }
+   }
+
    // reading UEL table
    FFile->SetCompression( DoUncompress );
    FFile->SetPosition( UELPos );
@@ -2013,8 +2042,9 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
 
    NrElem = FFile->ReadInteger();
    // subtract 2*6 bytes for MARK_UEL ("_UEL_\0") and 4 bytes for UEL count integer
-   const auto uelLabelStrBytes { VersionRead >= 7 ? AcronymPos-UELPos - 6 * 2 - 4 : 0 };
-   UELTable->SetCapacity( NrElem, uelLabelStrBytes );
+   constexpr int64_t maxStrBytesHint { 64 << 20 };
+   const auto uelLabelStrBytes { VersionRead >= 7 ? std::clamp<int64_t>( AcronymPos-UELPos - 6 * 2 - 4, 0, maxStrBytesHint ) : 0 };
+   UELTable->SetCapacity( std::min( NrElem, maxCapacityHint ), uelLabelStrBytes );
    // bug for pre 2002
    if( substr( FileSystemID, 15, 4 ) == "2001"s ) NrElem--;
 
@@ -2022,7 +2052,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
    {
       uint8_t slen;
       sstring s;
-      FFile->ReadSString( s.data(), slen );
+      if( ErrorCondition( FFile->ReadSString( s.data(), slen ), ERR_OPEN_UELMARKER2 ) ) return FileErrorNr();
       UELTable->StoreObject( s.data(), slen, -1 );
    }
    UelCntOrig = UELTable->size(); // needed when reading universe
@@ -2040,25 +2070,22 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       NrElem = FFile->ReadInteger();
       // set text table (when there) is always before UEL table
       // subtract bytes for length (4-byte) and twice 7 chars MARK_SETT (_SETT_\0)
-      const auto setTextStrBytes { UELPos - SetTextPos - 7 * 2 - 4 };
-      SetTextList->SetCapacity( NrElem, setTextStrBytes );
+      const auto setTextStrBytes { std::clamp<int64_t>( UELPos - SetTextPos - 7 * 2 - 4, 0, maxStrBytesHint ) };
+      SetTextList->SetCapacity( std::min( NrElem, maxCapacityHint ), setTextStrBytes );
       for( int N {}; N < NrElem; N++ )
       {
          uint8_t slen;
          sstring s;
-         FFile->ReadSString( s.data(), slen );
-         if( const int TextNum { SetTextList->Add( s.data(), slen ) };
-            TextNum != N )
+         if( ErrorCondition( FFile->ReadSString( s.data(), slen ), ERR_OPEN_TEXTMARKER2 ) ) return FileErrorNr();
+         const int TextNum { SetTextList->Add( s.data(), slen ) };
+         if( TextNum != N && MapSetText.empty() )
          {// duplicates stored in GDX file, e.g. empty string
             // NOTE: Not covered by unit tests yet.
-            if( !MapSetText )
-            {
-               MapSetText = std::make_unique<int[]>( NrElem );
-               for( int D {}; D < N; D++ )
-                  MapSetText[D] = D;
-            }
-            MapSetText[N] = TextNum;
+            for( int D {}; D < N; D++ )
+               MapSetText.push_back( D );
          }
+         if( TextNum != N || !MapSetText.empty() )
+            MapSetText.push_back( TextNum );
       }
       if( ErrorCondition( FFile->ReadString() == MARK_SETT, ERR_OPEN_TEXTMARKER2 ) ) return FileErrorNr();
    }
@@ -2087,14 +2114,20 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       {
          const int SyNr = FFile->ReadInteger();
          if( SyNr <= 0 ) break;
+         if( ErrorCondition( SyNr <= NrElemsOfSym, ERR_BADSYMBOLINDEX ) ) return FileErrorNr();
          const auto sym = *NameList->GetObject( SyNr );
          sym->SDomStrings = std::make_unique<int[]>( sym->SDim );
          for( int D {}; D < sym->SDim; D++ )
+         {
             sym->SDomStrings[D] = FFile->ReadInteger();
+            if( ErrorCondition( sym->SDomStrings[D] >= 0 && sym->SDomStrings[D] <= DomainStrList->Count(), ERR_OPEN_DOMSMARKER3 ) ) return FileErrorNr();
+         }
       }
       if( ErrorCondition( FFile->ReadString() == MARK_DOMS, ERR_OPEN_DOMSMARKER3 ) ) return FileErrorNr();
    }
 
+   ErrNr = FFile->GetLastIOResult();
+   if( ErrNr ) return FileNoGood();
    LastError = ERR_NOERROR;
    gdxResetSpecialValues();
    fmode = fr_init;
@@ -2845,7 +2878,7 @@ again:
          assert( D >= 0 && D < GLOBAL_MAX_INDEX_DIM );
          const auto &obj = DomainList[D];
          // AS: Should this also be appended to the data error list???
-         if( LastElem[D] < 0 || LastElem[D] >= UELTable->size() + (UELTable->OneBased?1:0) )
+         if( !IsKnownUel( LastElem[D] ) )
          {
             ReportError( ERR_BADELEMENTINDEX );
             BadError = true;
@@ -2898,7 +2931,7 @@ again:
    {
       for( int D {}; D < FCurrentDim; D++ )
       {
-         if( LastElem[D] < 0 )
+         if( !IsKnownUel( LastElem[D] ) )
          {
             // NOTE: Not covered by unit tests yet.
             ReportError( ERR_BADELEMENTINDEX );
@@ -3147,6 +3180,11 @@ int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomai
    {
       assert( DimPos >= 1 && DimPos <= GLOBAL_MAX_INDEX_DIM );
       const int RawNr { LastElem[DimPos - 1] };
+      if( !IsKnownUel( RawNr ) )
+      {
+         ReportError( ERR_BADELEMENTINDEX );
+         continue;
+      }
       if( DFilter )
       {
          if( const int MapNr { UELTable->GetUserMap( RawNr ) }; !DFilter->InFilter( MapNr ) )
@@ -3319,7 +3357,15 @@ int TGXFileObj::gdxDataReadSliceStart( int SyNr, int *ElemCounts )
    }
    while( DoRead( Values.data(), FDim ) )
       for( int D {}; D < FCurrentDim; D++ )
+      {
+         if( !IsKnownUel( LastElem[D] ) )
+         {
+            ReportError( ERR_BADELEMENTINDEX );
+            gdxDataReadDone();
+            return false;
+         }
          SliceIndxs[D].SetMapping( LastElem[D], 1 );
+      }
 
    gdxDataReadDone();
 
@@ -3983,13 +4029,15 @@ void TAcronymList::LoadFromStream( TXStream &S )
 {
    const int Cnt { S.ReadInteger() };
    FList.Clear();
-   FList.SetCapacity( Cnt );
+   const int CapacityHint { std::clamp( Cnt, 0, 1 << 16 ) };// the count in the file is not reliable
+   FList.SetCapacity( CapacityHint );
    if(useBatchAlloc)
-      batchAlloc.SetFirstBatchSize( Cnt * sizeof(TAcronym) );
+      batchAlloc.SetFirstBatchSize( CapacityHint * sizeof(TAcronym) );
    while( FList.GetCount() < Cnt )
    {
       TAcronym *acro = useBatchAlloc ? new (batchAlloc.GetBytes<TAcronym>()) TAcronym { S } : new TAcronym { S };
       FList.Add( acro );
+      if( acro->AcrName.empty() ) break;// damaged: acronyms in a file have names
    }
 }
 
-- 
2.43.0


From 77392d0956097496c8e4d5c60d440a489dab5aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:44 +0000
Subject: [PATCH 22/81] fix: partial and interrupted transfers are completed,
 and errors of the last writes and of closing the file are reported

---
 src/gdlib/gmsstrm.cpp | 60 +++++++++++++++++++++++++++++++++++++------
 src/gdlib/gmsstrm.hpp |  5 ++++
 src/gxfile.cpp        |  3 ++-
 3 files changed, 59 insertions(+), 9 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 886b9d4..1f4b7b0 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -27,6 +27,7 @@
 
 #include <algorithm>             // for min, max
 #include <cassert>               // for assert
+#include <cerrno>                // for EINTR, EIO
 #include <cmath>                 // for round, abs
 #include <cstdint>               // for uint32_t, uint8_t, int64_t, uint16_t
 #include <cstdlib>               // for malloc, abs, free
@@ -531,8 +532,14 @@ TXFileStream::TXFileStream( std::string AFileName, const FileAccessMode AMode )
 
 TXFileStream::~TXFileStream()
 {
-   if( FileIsOpen )
-      SetLastIOResult( p3FileClose(FS) );
+   TXFileStream::CloseFile();
+}
+
+void TXFileStream::CloseFile()
+{
+   if( !FileIsOpen ) return;
+   SetLastIOResult( p3FileClose(FS) );
+   FileIsOpen = false;
 }
 
 void TXFileStream::ApplyPassWord( const char *PR, char *PW, int Len, int64_t Offs ) const
@@ -547,17 +554,48 @@ void TXFileStream::ApplyPassWord( const char *PR, char *PW, int Len, int64_t Off
    }
 }
 
+// the operating system may transfer less than we ask for: continue until everything is done
+uint32_t TXFileStream::ReadAll( char *Buffer, uint32_t Count )
+{
+   uint32_t res {};
+   while( res < Count )
+   {
+      uint32_t nrRead {};
+      const int rc { p3FileRead( FS, &Buffer[res], Count - res, nrRead ) };
+      if( rc == EINTR ) continue;
+      SetLastIOResult( rc );
+      if( rc || !nrRead ) break;
+      res += nrRead;
+   }
+   return res;
+}
+
+uint32_t TXFileStream::WriteAll( const char *Buffer, uint32_t Count )
+{
+   uint32_t res {};
+   while( res < Count )
+   {
+      uint32_t nrWritten {};
+      const int rc { p3FileWrite( FS, &Buffer[res], Count - res, nrWritten ) };
+      if( rc == EINTR ) continue;
+      SetLastIOResult( !rc && !nrWritten ? EIO : rc );
+      if( rc || !nrWritten ) break;
+      res += nrWritten;
+   }
+   return res;
+}
+
 uint32_t TXFileStream::Read( void *Buffer, uint32_t Count )
 {
    uint32_t res;
    if( FPassWord.empty() )
-      SetLastIOResult( p3FileRead( FS, static_cast<char *>( Buffer ), Count, res ) );
+      res = ReadAll( static_cast<char *>( Buffer ), Count );
    else
    {
       const auto PW = static_cast<char *>( Buffer );
       std::vector<char> PR( Count );
-      SetLastIOResult( p3FileRead( FS, PR.data(), Count, res ) );
-      ApplyPassWord( PR.data(), PW, static_cast<int>( Count ), PhysPosition );
+      res = ReadAll( PR.data(), Count );
+      ApplyPassWord( PR.data(), PW, static_cast<int>( res ), PhysPosition );
    }
    PhysPosition += res;
    return res;
@@ -567,13 +605,13 @@ uint32_t TXFileStream::Write( const void *Buffer, uint32_t Count )
 {
    uint32_t res {};
    if( FPassWord.empty() )
-      SetLastIOResult( p3FileWrite( FS, static_cast<const char *>( Buffer ), Count, res ) );
+      res = WriteAll( static_cast<const char *>( Buffer ), Count );
    else
    {
       const auto PR = static_cast<const char *>( Buffer );
       std::vector<char> PW( Count );
       ApplyPassWord( PR, PW.data(), static_cast<int>( Count ), PhysPosition );
-      SetLastIOResult( p3FileWrite( FS, PW.data(), Count, res ) );
+      res = WriteAll( PW.data(), Count );
    }
    PhysPosition += res;
    return res;
@@ -674,10 +712,16 @@ TBufferedFileStream::TBufferedFileStream( const std::string &FileName, uint16_t
 }
 
 TBufferedFileStream::~TBufferedFileStream()
+{
+   TBufferedFileStream::CloseFile();
+   free( CBufPtr );
+}
+
+void TBufferedFileStream::CloseFile()
 {
    if( NrWritten > 0 )
       FlushBuffer();
-   free( CBufPtr );
+   TXFileStream::CloseFile();
 }
 
 bool TBufferedFileStream::FlushBuffer()
diff --git a/src/gdlib/gmsstrm.hpp b/src/gdlib/gmsstrm.hpp
index 3238cd7..a8dd570 100644
--- a/src/gdlib/gmsstrm.hpp
+++ b/src/gdlib/gmsstrm.hpp
@@ -202,6 +202,8 @@ class TXFileStream : public TXStream
    std::string FFileName {}, FPassWord {};
 
    static std::string RandString( int L );
+   uint32_t ReadAll( char *Buffer, uint32_t Count );
+   uint32_t WriteAll( const char *Buffer, uint32_t Count );
 
 protected:
    int FLastIOResult {};
@@ -214,6 +216,8 @@ protected:
 public:
    TXFileStream( std::string AFileName, FileAccessMode AMode );
    ~TXFileStream() override;
+   // the result of this is part of GetLastIOResult
+   virtual void CloseFile();
 
    void ApplyPassWord( const char *PR, char *PW, int Len, int64_t Offs ) const;
    uint32_t Read( void *Buffer, uint32_t Count ) override;
@@ -258,6 +262,7 @@ protected:
 public:
    TBufferedFileStream( const std::string &FileName, uint16_t Mode );
    ~TBufferedFileStream() override;
+   void CloseFile() override;
    bool FlushBuffer();
    uint32_t Read( void *Buffer, uint32_t Count ) override;
    char ReadCharacter();
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 3d28e8b..4318f2d 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -638,6 +638,7 @@ int TGXFileObj::gdxClose()
       FFile->WriteInteger( MARK_BOI );
    }
 
+   if( FFile ) FFile->CloseFile();// before we ask for the result: this writes what is still in the buffer
    int res { FFile ? FFile->GetLastIOResult() : 1 };
 
    FreeTables();
@@ -646,7 +647,7 @@ int TGXFileObj::gdxClose()
    fmode = f_not_open;
    fstatus = stat_notopen;
 
-   if( AutoConvert && !fnConv.empty() )
+   if( !res && AutoConvert && !fnConv.empty() )
    {
       res = ConvertGDXFile( fnConv, CompressOut ? "C" : "U" );
       if( res > 0 ) res += 100;
-- 
2.43.0


From 7a66f170077d359823690583cbd13128a3799b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:14 +0000
Subject: [PATCH 23/81] fix: a closed file does not determine the size of the
 universe of the next one

---
 src/gxfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 4318f2d..bc8737a 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -678,6 +678,7 @@ void TGXFileObj::FreeTables()
    FilterList = nullptr;
    AcronymList = nullptr;
    MapSetText.clear();
+   UelCntOrig = 0;
 }
 
 void TGXFileObj::InitErrors()
-- 
2.43.0


From 9e14065ecd305906225e7417f2784a05bc3f9d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:56 +0000
Subject: [PATCH 24/81] fix: messages for debugging are discarded in release
 builds

---
 src/gdlib/utils.cpp | 4 ----
 src/gdlib/utils.hpp | 7 ++++++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/gdlib/utils.cpp b/src/gdlib/utils.cpp
index 0e3803c..fbe92d7 100644
--- a/src/gdlib/utils.cpp
+++ b/src/gdlib/utils.cpp
@@ -47,10 +47,6 @@ using namespace std::literals::string_literals;
 // ==============================================================================================================
 // Implementation
 // ==============================================================================================================
-#if defined(NDEBUG) && !defined(__IN_CPPMEX__)
-std::stringstream debugStream;
-#endif
-
 namespace utils
 {
 
diff --git a/src/gdlib/utils.hpp b/src/gdlib/utils.hpp
index 77661cf..940259d 100644
--- a/src/gdlib/utils.hpp
+++ b/src/gdlib/utils.hpp
@@ -58,7 +58,12 @@
 #if !defined(NDEBUG) || defined(__IN_CPPMEX__)
 #define debugStream std::cout
 #else
-extern std::stringstream debugStream;
+// discards everything: objects used in different threads must not share a stream, and nobody reads the messages
+struct TNullStream {
+   template<typename T>
+   const TNullStream &operator<<( const T & ) const { return *this; }
+};
+constexpr TNullStream debugStream {};
 #endif
 
 namespace utils
-- 
2.43.0


From 149c8a73cbaba19c52952406c5b416544f185643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:00 +0000
Subject: [PATCH 25/81] fix: objects do not share buffers

---
 src/gdlib/gmsstrm.cpp | 10 ++++++----
 src/gxfile.cpp        | 16 ++++++++--------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 1f4b7b0..4fe60d5 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -33,6 +33,7 @@
 #include <cstdlib>               // for malloc, abs, free
 #include <cstring>               // for memcpy, strerror
 #include <functional>            // for function
+#include <limits>                // for numeric_limits
 #include <stdexcept>             // for runtime_error
 #include <string>                // for basic_string, string, operator+, ope...
 #include <utility>               // for move
@@ -63,7 +64,7 @@ namespace gdlib::gmsstrm
 std::string SysErrorMessage( int errorCode )
 {
 #if defined( _WIN32 )
-   static sstring errMsgBuf;
+   sstring errMsgBuf;
    strerror_s( errMsgBuf.data(), (int) errMsgBuf.size(), errorCode );
    char *errMsg = errMsgBuf.data();
 #else
@@ -248,10 +249,11 @@ void TXStream::WriteString( const std::string_view s )
       *fstext << "WriteString@" << GetPosition() << "#" << ++cnt << ": " << s << "\n";
    }
 #endif
-   static sstring buf {};
+   sstring buf;
    if( Paranoid ) ParWrite( RWType::rw_string );
-   strConvCppToDelphi( s, buf.data() );
-   Write( buf.data(), static_cast<uint32_t>( s.length() ) + 1 );
+   const auto shortStr { s.substr( 0, std::numeric_limits<uint8_t>::max() ) };
+   strConvCppToDelphi( shortStr, buf.data() );
+   Write( buf.data(), static_cast<uint32_t>( shortStr.length() ) + 1 );
 }
 
 void TXStream::WriteDouble( double x )
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index bc8737a..09782a5 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -482,7 +482,7 @@ int TGXFileObj::gdxDataWriteStr( const char **KeyStr, const double *Values )
          debugStream << " " << KeyStr[D] << ( D + 1 < FCurrentDim ? "," : "" ) << "\n";
    }
    // Could actually be GLOBAL_UEL_IDENT_SIZE but is ShortString in Delphi
-   static sstring SVstorage;
+   sstring SVstorage;
    for( int D {}; D < FCurrentDim; D++ )
    {
       int SVlen;
@@ -1537,8 +1537,8 @@ void TGXFileObj::AddToErrorListDomErrs( const std::array<int, GLOBAL_MAX_INDEX_D
    else if( ErrorList->GetCount() >= 11 )
       return;// NOTE: Not covered by unit tests yet.
 
-   static std::array<int, GLOBAL_MAX_INDEX_DIM> keys {};
-   static std::array<double, GMS_VAL_MAX> vals {};
+   std::array<int, GLOBAL_MAX_INDEX_DIM> keys {};
+   std::array<double, GMS_VAL_MAX> vals {};
 
    for( int D {}; D < FCurrentDim; D++ )
    {
@@ -2185,7 +2185,7 @@ int TGXFileObj::gdxAddSetText( const char *Txt, int &TxtNr )
       TxtNr = 0;
       return false;
    }
-   static sstring s;
+   sstring s;
    assignPCharToBuf( Txt, s.data(), GMS_SSSIZE );
    const int slen { MakeGoodExplText( s.data() ) };
    TxtNr = SetTextList->Add( s.data(), slen );
@@ -2644,7 +2644,7 @@ int TGXFileObj::gdxUELRegisterRaw( const char *Uel )
    if( ( TraceLevel >= TraceLevels::trl_all || fmode != f_raw_elem ) && !CheckMode( "UELRegisterRaw"s, f_raw_elem ) )
       return false;// NOTE: Not covered by unit tests yet.
 
-   static sstring svStorage;
+   sstring svStorage;
    int svLen;
    const char *SV { trimRight( Uel, svStorage.data(), svLen ) };
    if( ErrorCondition( GoodUELString( SV, svLen ), ERR_BADUELSTR ) ) return false;
@@ -2664,7 +2664,7 @@ int TGXFileObj::gdxUELRegisterStr( const char *Uel, int &UelNr )
 {
    if( ( TraceLevel >= TraceLevels::trl_all || fmode != f_str_elem ) && !CheckMode( "UELRegisterStr"s, f_str_elem ) )
       return false; // not covered by unit test
-   static sstring SVstorage;
+   sstring SVstorage;
    int svlen;
    const char *SV { trimRight( Uel, SVstorage.data(), svlen ) };
    if( ErrorCondition( GoodUELString( SV, svlen ), ERR_BADUELSTR ) )
@@ -2808,7 +2808,7 @@ int TGXFileObj::gdxUELRegisterMapStart()
 int TGXFileObj::gdxUELRegisterMap( int UMap, const char *Uel )
 {
    int svLen;
-   static sstring svStorage;
+   sstring svStorage;
    const char *SV { trimRight( Uel, svStorage.data(), svLen ) };
    if( TraceLevel >= TraceLevels::trl_all || fmode != f_map_elem )
    {
@@ -3632,7 +3632,7 @@ int TGXFileObj::gdxUMFindUEL( const char *Uel, int &UelNr, int &UelMap )
       UelNr = -1;
       return false;
    }
-   static sstring trimmedUelStorage;
+   sstring trimmedUelStorage;
    int trimmedUelLen;
    UelNr = UELTable->IndexOf( trimRight( Uel, trimmedUelStorage.data(), trimmedUelLen ) );
    if( UelNr < 0 ) return false;
-- 
2.43.0


From 0be4b22f8d89ea65f24af5764c25df16544b1150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:29 +0000
Subject: [PATCH 26/81] fix: refuse to append to files whose text table has
 duplicates

---
 src/gxfile.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 09782a5..f364593 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3497,9 +3497,11 @@ int TGXFileObj::gdxOpenAppend( const char *FileName, const char *Producer, int &
    const int res { gdxOpenReadXX( FileName, fmOpenReadWrite, 0, ErrNr ) };
    if( !res || ErrNr != 0 ) return res;
    AppendActive = true;
-   if( VersionRead < 7 )
+   // records refer to texts by number: a table with duplicates, as stored by old versions, cannot be extended
+   if( VersionRead < 7 || !MapSetText.empty() )
    {
-      ReportError( ERR_FILETOOLDFORAPPEND );
+      ErrNr = ERR_FILETOOLDFORAPPEND;
+      ReportError( ErrNr );
       gdxClose();
       return 0;
    }
-- 
2.43.0


From dd910bee7b59c4bb8958a28d740c899aed4686a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:27 +0000
Subject: [PATCH 27/81] fix: refuse to append to files of the other byte order

---
 src/gxfile.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index f364593..bacce67 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3497,6 +3497,13 @@ int TGXFileObj::gdxOpenAppend( const char *FileName, const char *Producer, int &
    const int res { gdxOpenReadXX( FileName, fmOpenReadWrite, 0, ErrNr ) };
    if( !res || ErrNr != 0 ) return res;
    AppendActive = true;
+   if( FFile->WordsNeedFlip() || FFile->IntsNeedFlip() )
+   {// we cannot update a mixed environment file
+      ErrNr = ERR_BADDATAFORMAT;
+      ReportError( ErrNr );
+      gdxClose();
+      return 0;
+   }
    // records refer to texts by number: a table with duplicates, as stored by old versions, cannot be extended
    if( VersionRead < 7 || !MapSetText.empty() )
    {
-- 
2.43.0


From 55f16868dbb7b6c24eda6c2376990ae2f499034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:49 +0000
Subject: [PATCH 28/81] fix: file streams report the size of the file

---
 src/gdlib/gmsstrm.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 4fe60d5..b8babc7 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -488,13 +488,9 @@ std::string TXFileStream::RandString( int L )
 
 int64_t TXFileStream::GetSize()
 {
-#ifdef __IN_CPPMEX__
-   int64_t res;
+   int64_t res {};
    SetLastIOResult( p3FileGetSize( FS, res ) );
    return res;
-#else
-   return 0;
-#endif
 }
 
 int64_t TXFileStream::GetPosition()
-- 
2.43.0


From e59a2504890b13f1002c5ffbd2e04d83069c660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:33 +0000
Subject: [PATCH 29/81] fix: switching compression keeps the position of a
 stream

---
 src/gdlib/gmsstrm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index b8babc7..2065102 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -826,7 +826,11 @@ void TBufferedFileStream::SetCompression( bool V )
 {
    if( ( FCompress || V ) && NrWritten > 0 ) FlushBuffer();
    if( FCompress != V )
+   {
+      if( !FCompress && NrRead < NrLoaded )// we have been reading ahead
+         TXFileStream::SetPosition( PhysPosition - NrLoaded + NrRead );
       NrLoaded = NrRead = 0;
+   }
    FCompress = V;
 }
 
-- 
2.43.0


From 47dc5fab2aaa1943085f14b68f18295fd9164a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:34 +0000
Subject: [PATCH 30/81] fix: packed integers include the smallest integer

---
 src/gdlib/gmsstrm.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 2065102..d002222 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -937,15 +937,15 @@ void TMiBufferedStream::WriteGmsInteger( int N )
 #endif
 
    uint8_t B { static_cast<uint8_t>( N >= 0 ? 0 : 128 ) };
-   if( N < 0 ) N = -N;
-   B |= N & 15;
-   N >>= 4;
+   uint32_t U { N < 0 ? 0u - static_cast<uint32_t>( N ) : static_cast<uint32_t>( N ) };// also for the smallest integer
+   B |= U & 15;
+   U >>= 4;
    int C {};
    std::array<uint8_t, 5> W {};
-   while( N )
+   while( U )
    {
-      W[++C] = ui8(N & 255);
-      N >>= 8;
+      W[++C] = ui8(U & 255);
+      U >>= 8;
    }
    W[0] = ui8(B | C << 4);
    Write( W.data(), C + 1 );
@@ -1045,17 +1045,16 @@ int TMiBufferedStream::ReadGmsInteger()
    std::array<uint8_t, 5> W {};
    W[0] = B & 15;
    const bool Neg = B >= 128;
-   global::delphitypes::Bounded<int, 0, 6> C { ( B >> 4 ) & 7 };
+   global::delphitypes::Bounded<int, 0, 6> C { std::min( ( B >> 4 ) & 7, static_cast<int>( W.size() ) - 1 ) };
    if( C > 0 ) Read( &W[1], C );
-   int res {};
+   uint32_t res {};
    while( C >= 1 )
    {
       res = ( res << 8 ) | W[C];
       --C;
    }
    res = ( res << 4 ) | W[0];
-   if( Neg ) res *= -1;
-   return res;
+   return static_cast<int>( Neg ? 0u - res : res );
 }
 
 double TMiBufferedStream::ReadGmsDouble()
-- 
2.43.0


From 0d09ccb1508e614d8ad64cd42ca4e3aed3e2552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:12 +0000
Subject: [PATCH 31/81] fix: rewinding a text stream with a header skips the
 verification string

---
 src/gdlib/gmsstrm.cpp | 15 +++++++++++++--
 src/gdlib/gmsstrm.hpp |  1 +
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index d002222..0839583 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -160,6 +160,12 @@ TGZipInputStream::~TGZipInputStream()
    gzclose( pgz );
 }
 
+void TGZipInputStream::ReWind()
+{
+   gzrewind( pgz );
+   NrRead = NrLoaded = 0;
+}
+
 uint32_t TGZipInputStream::Read( void *buffer, uint32_t Count )
 {
    const auto FillBuffer = [&]() -> bool {
@@ -1334,13 +1340,18 @@ bool TBinaryTextFileIO::UsesPassWord()
 void TBinaryTextFileIO::ReWind()
 {
    assert( frw == fm_read && "TBinaryTextFileIO.ReWind1" );
+   if( FFileSignature == fsign_gzip )
+   {
+      gzFS->ReWind();
+      return;
+   }
    assert( FS && "TBinaryTextFileIO.ReWind2" );
    FS->SetPosition( FRewindPoint );
-   if( FS->GetCompression() ) FS->ReadString();// skip verification string
+   if( FMajorVersionRead ) FS->ReadString();// file with a header: skip verification string
 }
 
 int TBinaryTextFileIO::GetLastIOResult()
 {
-   return FS->GetLastIOResult();
+   return FS ? FS->GetLastIOResult() : 0;
 }
 }// namespace gdlib::gmsstrm
diff --git a/src/gdlib/gmsstrm.hpp b/src/gdlib/gmsstrm.hpp
index a8dd570..4d588d8 100644
--- a/src/gdlib/gmsstrm.hpp
+++ b/src/gdlib/gmsstrm.hpp
@@ -358,6 +358,7 @@ public:
    ~TGZipInputStream();
 
    uint32_t Read( void *buffer, uint32_t Count );
+   void ReWind();
 
    void ReadLine( std::string &buffer, int MaxInp, char &LastChar );
    void ReadLine( std::vector<uint8_t> &buffer, int MaxInp, char &LastChar );
-- 
2.43.0


From 946c8d489997365c1de98403c3c4c66adec31342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:44 +0000
Subject: [PATCH 32/81] fix: all characters of the password of a stream are
 used

---
 src/gdlib/gmsstrm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 0839583..299613f 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -549,12 +549,12 @@ void TXFileStream::CloseFile()
 void TXFileStream::ApplyPassWord( const char *PR, char *PW, int Len, int64_t Offs ) const
 {
    const auto L = static_cast<int>( FPassWord.length() );
-   auto FPwNxt = static_cast<int>( Offs ) % L;
+   auto FPwNxt = static_cast<int>( Offs % L );
    for( int N {}; N < Len; N++ )
    {
       FPwNxt++;
       if( FPwNxt > L ) FPwNxt = 1;
-      PW[N] = static_cast<char>( PR[N] ^ FPassWord[FPwNxt] );
+      PW[N] = static_cast<char>( PR[N] ^ FPassWord[FPwNxt - 1] );
    }
 }
 
-- 
2.43.0


From 2bbedf783e501c14db32189aedc713e8869e64e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:19 +0000
Subject: [PATCH 33/81] fix: verification of passwords whose check string
 contains any character

---
 src/gdlib/gmsstrm.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 299613f..844834e 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -1176,9 +1176,9 @@ TBinaryTextFileIO::TBinaryTextFileIO( const std::string &fn, const std::string &
    {
       FS->SetPassWord( PassWord );
       const std::string src = FS->ReadString();
-      sstring targBuf {};
+      std::string targBuf( src.length(), '\0' );// may contain any character
       FS->ApplyPassWord( src.c_str(), targBuf.data(), (int) src.length(), verify_offset );
-      if( TBufferedFileStream::RandString( static_cast<int>( src.length() ) ) != std::string(targBuf.data()) ) return;
+      if( TBufferedFileStream::RandString( static_cast<int>( src.length() ) ) != targBuf ) return;
    }
 
    FRewindPoint = FS->GetPosition();
@@ -1207,11 +1207,11 @@ TBinaryTextFileIO::TBinaryTextFileIO( const std::string &fn, const std::string &
       {
          FS->FlushBuffer();
          FS->SetPassWord( PassWord );
-         std::string src = gdlib::gmsstrm::TBufferedFileStream::RandString( (int) PassWord.length() );
-         sstring targBuf {};
+         std::string src = gdlib::gmsstrm::TBufferedFileStream::RandString( std::min( (int) PassWord.length(), 255 ) );
+         std::string targBuf( src.length(), '\0' );// may contain any character
          FS->ApplyPassWord( src.c_str(), targBuf.data(), (int) src.length(), verify_offset );
          FS->SetPassWord( "" );
-         FS->WriteString( targBuf.data() );
+         FS->WriteString( targBuf );
       }
       if( comp ) FS->SetCompression( true );
       else
-- 
2.43.0


From 286bfb6f4c2232acc6d9191318534e74f2d23eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:52 +0000
Subject: [PATCH 34/81] fix: line limit of gzip streams

---
 src/gdlib/gmsstrm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 844834e..635337b 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -194,7 +194,7 @@ uint32_t TGZipInputStream::Read( void *buffer, uint32_t Count )
 void TGZipInputStream::ReadLine( std::string &buffer, int MaxInp, char &LastChar )
 {
    buffer.clear();
-   while( !in<char>( LastChar, '\r', '\n', substChar ) || static_cast<int>( buffer.size() ) == MaxInp )
+   while( !in<char>( LastChar, '\r', '\n', substChar ) && static_cast<int>( buffer.size() ) != MaxInp )
    {
       buffer.push_back( LastChar );
       if( NrLoaded - NrRead >= 1 )
@@ -207,7 +207,7 @@ void TGZipInputStream::ReadLine( std::string &buffer, int MaxInp, char &LastChar
 void TGZipInputStream::ReadLine( std::vector<uint8_t> &buffer, int MaxInp, char &LastChar )
 {
    buffer.clear();
-   while( !in<char>( LastChar, '\r', '\n', substChar ) || static_cast<int>( buffer.size() ) == MaxInp )
+   while( !in<char>( LastChar, '\r', '\n', substChar ) && static_cast<int>( buffer.size() ) != MaxInp )
    {
       buffer.push_back( LastChar );
       if( NrLoaded - NrRead >= 1 )
@@ -220,7 +220,7 @@ void TGZipInputStream::ReadLine( std::vector<uint8_t> &buffer, int MaxInp, char
 void TGZipInputStream::ReadLine( char *buffer, int MaxInp, char &LastChar, int &Len )
 {
    Len = 0;
-   while( !in<char>( LastChar, '\r', '\n', substChar ) || static_cast<int>( Len ) == MaxInp )
+   while( !in<char>( LastChar, '\r', '\n', substChar ) && Len != MaxInp )
    {
       buffer[Len++] = LastChar;
       if( NrLoaded - NrRead >= 1 )
-- 
2.43.0


From 983072dfe5380c316295a00c24310c937824d43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:32 +0000
Subject: [PATCH 35/81] fix: refuse text stream files with an unknown signature

---
 src/gdlib/gmsstrm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 635337b..81ee525 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -1141,7 +1141,9 @@ TBinaryTextFileIO::TBinaryTextFileIO( const std::string &fn, const std::string &
    }
    ErrNr = strmErrorGAMSHeader;
    errMsg = "GAMS header not found";
-   FFileSignature = static_cast<TFileSignature>( FS->ReadByte() - ord('A') );
+   const int signature { FS->ReadByte() - ord( 'A' ) };
+   if( signature != fsign_text && signature != fsign_blocktext ) return;
+   FFileSignature = static_cast<TFileSignature>( signature );
    FS->ReadString();
    FMajorVersionRead = FS->ReadByte();
    FMinorVersionRead = FS->ReadByte();
-- 
2.43.0


From 344b6c759931fd2f50f0b080f20db36dfae2dfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:14 +0000
Subject: [PATCH 36/81] fix: damaged gzip files do not overrun the buffer

---
 src/gdlib/gmsstrm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 81ee525..1834a63 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -169,7 +169,8 @@ void TGZipInputStream::ReWind()
 uint32_t TGZipInputStream::Read( void *buffer, uint32_t Count )
 {
    const auto FillBuffer = [&]() -> bool {
-      NrLoaded = gzread( pgz, Buf.data(), static_cast<int>( this->Buf.size() ) );
+      const int nrBytes { gzread( pgz, Buf.data(), static_cast<unsigned int>( this->Buf.size() ) ) };
+      NrLoaded = nrBytes > 0 ? nrBytes : 0;// negative: damaged file
       NrRead = 0;
       return NrLoaded > 0;
    };
-- 
2.43.0


From bc66e24a5ed0505ebce6440e20c00c0bd89d087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:01 +0000
Subject: [PATCH 37/81] fix: gdxdump lists all acronyms

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 827d7a6..d7012f3 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -989,7 +989,7 @@ void WriteAcronyms() {
   }
 
   fo << '\n';
-  for (int N{}; N < Cnt; N++) {
+  for (int N{1}; N <= Cnt; N++) {
     gdxAcronymGetInfo(PGX, N, sName.data(), sText.data(), &Indx);
     fo << "Acronym " << sName.data();
     if (!sText.empty()) {
-- 
2.43.0


From 4c391b399ea305edc2a583042f1d8dc56ae5d550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:14 +0000
Subject: [PATCH 38/81] fix: gdxdump recognises the subtypes of equations

---
 src/tools/gdxdump/gdxdump.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index d7012f3..51096e7 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -421,6 +421,7 @@ void WriteSymbol(const int SyNr) {
     break;
 
   case dt_equ:
+    AUser = gmsFixEquType(AUser);
     if (AUser < GMS_EQUTYPE_E || AUser > GMS_EQUTYPE_B) {
       AUser = GMS_EQUTYPE_E;
     }
-- 
2.43.0


From df869468b30e91e444faf51fdd90316d1ba49617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:05 +0000
Subject: [PATCH 39/81] fix: gdxdump quotes element texts that contain quotes

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 51096e7..a52743a 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -127,7 +127,7 @@ void WriteQText(const std::string &S, const bool checkParenthesis) {
 // Check if UEL associated text needs to be quoted
 void WriteQUELText(const std::string &S) {
   WriteQuotedCommon(S, [](const char c) {
-    return utils::in(c, ' ', ',', ';', '/', '$', '=', '*');
+    return utils::in(c, ' ', ',', ';', '/', '$', '=', '*', '\'', '\"');
   });
 }
 
-- 
2.43.0


From 14b4aca8dc523f5dfedf6ba97cf074ac4de73544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:48 +0000
Subject: [PATCH 40/81] fix: gdxdump starts comments of scalars and headers on
 a new line

---
 src/tools/gdxdump/gdxdump.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index a52743a..abdee15 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -363,12 +363,16 @@ void WriteSymbol(const int SyNr) {
     LineCount++;
   };
 
-  auto WriteComments = [&]() {
+  auto WriteComments = [&](const bool startNewLine) {
     library::ShortString S;
     for (int N{1}; N <= std::numeric_limits<int>::max(); N++) {
       if (gdxSymbolGetComment(PGX, SyNr, N, S.data()) == 0) {
         break;
       }
+      // The asterisk of a comment line has to be the first character of the line
+      if (N == 1 && startNewLine) {
+        fo << '\n';
+      }
       fo << "* " << S.data() << '\n';
     }
   };
@@ -484,10 +488,10 @@ void WriteSymbol(const int SyNr) {
   if (ACount == 0 && ShowData) {
     if (IsScalar) {
       fo << " / 0.0 /;\n";
-      WriteComments();
+      WriteComments(false);
     } else if (ShowHdr && ATyp != dt_alias) {
       fo << " / /;\n";
-      WriteComments();
+      WriteComments(false);
     }
   } else {
     if (ShowHdr && ShowData) {
@@ -496,7 +500,7 @@ void WriteSymbol(const int SyNr) {
         fo << '\n';
       }
     }
-    WriteComments();
+    WriteComments(ShowHdr && ATyp != dt_alias && (!ShowData || ADim == 0));
     if (!ShowData) {
       if (ATyp != dt_alias) {
         if (ACount == 0) {
-- 
2.43.0


From 291d4de3cdb89ef269940a5168ba577a556906de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:50 +0000
Subject: [PATCH 41/81] fix: gdxdump gives all columns of a CSV header
 different names

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index abdee15..8c0b3ac 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -587,7 +587,7 @@ void WriteSymbolCSV(const int SyNr) {
       }
       while (true) {
         Done = true;
-        for (int DD{}; DD < D - 1; DD++) {
+        for (int DD{}; DD < D; DD++) {
           if (s == DomSPtrs[DD]) {
             Done = false;
             break;
-- 
2.43.0


From 8e6436f152823e9402646284c625f9c97c46f1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:26 +0000
Subject: [PATCH 42/81] fix: gdxdump considers all sets for the largest set
 text number

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 8c0b3ac..344ad54 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -885,7 +885,7 @@ void WriteSetText() {
   // Now find the max textIdx stored for any set element
   mxTextIdx = 0;
   gdxSystemInfo(PGX, &nSyms, &idummy);
-  for (int iSym{}; iSym < nSyms; iSym++) {
+  for (int iSym{1}; iSym <= nSyms; iSym++) {
     gdxSymbolInfo(PGX, iSym, s.data(), &symDim, &symTyp);
     if (static_cast<gdxSyType>(symTyp) != dt_set) {
       continue;
-- 
2.43.0


From 54d95c38f291595d038b5a6dca9b306999760f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:40 +0000
Subject: [PATCH 43/81] fix: overlong strings do not overrun the buffers of the
 tools

---
 src/tools/library/short_string.cpp | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/src/tools/library/short_string.cpp b/src/tools/library/short_string.cpp
index 57aade5..ac59bd3 100644
--- a/src/tools/library/short_string.cpp
+++ b/src/tools/library/short_string.cpp
@@ -1,4 +1,5 @@
 // #include <cassert>
+#include <algorithm>
 #include <cstddef>
 #include <cstring>
 #include <ostream>
@@ -15,11 +16,8 @@ ShortString::ShortString() {
 }
 
 ShortString::ShortString(const char *s) {
-  const std::size_t s_length{std::strlen(s)};
-
-#if defined(ENABLE_ASSERTIONS)
-  assert(s_length < GMS_SSSIZE);
-#endif
+  // Like in Delphi, characters that do not fit are dropped
+  const std::size_t s_length{std::min<std::size_t>(std::strlen(s), GMS_SSSIZE - 1)};
 
   std::memcpy(buffer.data(), s, s_length);
   buffer[s_length] = '\0';
@@ -96,21 +94,15 @@ void ShortString::clear() {
 void ShortString::append(const char c) {
   const std::uint8_t length{this->length()};
 
-#if defined(ENABLE_ASSERTIONS)
-  assert(length + 1 < GMS_SSSIZE);
-#endif
-
-  buffer[length] = c;
-  buffer[length + 1] = '\0';
+  if (length < GMS_SSSIZE - 1) {
+    buffer[length] = c;
+    buffer[length + 1] = '\0';
+  }
 }
 
 void ShortString::append(const char *s) {
   const std::uint8_t length{this->length()};
-  const std::size_t s_length{std::strlen(s)};
-
-#if defined(ENABLE_ASSERTIONS)
-  assert(length + s_length < GMS_SSSIZE);
-#endif
+  const std::size_t s_length{std::min<std::size_t>(std::strlen(s), GMS_SSSIZE - 1 - length)};
 
   std::memcpy(buffer.data() + length, s, s_length);
   buffer[length + s_length] = '\0';
@@ -147,11 +139,7 @@ void ShortString::to_upper_case() {
 }
 
 ShortString &ShortString::operator=(const std::string &s) {
-  const std::size_t s_length{s.length()};
-
-#if defined(ENABLE_ASSERTIONS)
-  assert(s_length < GMS_SSSIZE);
-#endif
+  const std::size_t s_length{std::min<std::size_t>(s.length(), GMS_SSSIZE - 1)};
 
   std::memcpy(buffer.data(), s.data(), s_length);
   buffer[s_length] = '\0';
-- 
2.43.0


From dd993db25888f926639f6a52e8245669dd2cb09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:41 +0000
Subject: [PATCH 44/81] fix: gdxdump writes the IDE message to the console

---
 src/tools/gdxdump/gdxdump.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 344ad54..bf6ea12 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -1010,6 +1010,7 @@ int main(const int argc, const char *argv[]) {
   std::string InputFile, UELSetName, OutputName;
   int ErrNr, ExitCode;
   bool ListAllSymbols, ListSymbolsAsSet, ListSymbolsAsSetDI, UsingIDE, VersionOnly, DomainInfo, showSetText;
+  std::streambuf *const consoleBuffer{fo.rdbuf()};
 
   // for (int N{}; N < argc; N++) {
   //   std::cout << "Parameter " << N << ": |" << argv[N] << "|\n";
@@ -1487,6 +1488,8 @@ int main(const int argc, const char *argv[]) {
 AllDone:
   gdxClose(PGX);
   gdxFree(&PGX);
+  // The output file is complete, what follows is written to the console
+  fo.rdbuf(consoleBuffer);
 
   if (UsingIDE && !OutputName.empty()) {
     std::cout << "GDXDump file written: " << OutputName << "[FIL:\"" << OutputName << "\",0,0]\n";
-- 
2.43.0


From ca1ab60acbb8170b388631d1afec5e8a38afea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:06 +0000
Subject: [PATCH 45/81] fix: use the decimal separator in numbers written with
 an exponent

---
 src/gdlib/strutilx.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gdlib/strutilx.cpp b/src/gdlib/strutilx.cpp
index 9807e62..74bd67b 100644
--- a/src/gdlib/strutilx.cpp
+++ b/src/gdlib/strutilx.cpp
@@ -302,6 +302,7 @@ static uint8_t DblToStrSepCore(double V, const char DecimalSep, char *s)
    else
    {
       assert(k >= 0);
+      s[j] = DecimalSep;
       if( s[k] == '+' )
          s[k] = ' ';
       for( int i = k + 1; i < slen; i++ )
-- 
2.43.0


From 71fac6c4972daa244943c87e767565b5be127ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:12 +0000
Subject: [PATCH 46/81] fix: gdxdiff writes acronyms by name

---
 src/tools/gdxdiff/gdxdiff.cpp | 37 ++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index e57c664..2418009 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -61,6 +61,7 @@ std::unique_ptr<gdlib::strhash::TXStrHashList<std::nullptr_t>> UELTable;
 int staticUELNum;
 double EpsAbsolute, EpsRelative;
 std::map<library::ShortString, StatusCode> StatusTable;
+std::map<std::string, int> DiffAcronyms;
 std::unique_ptr<library::cmdpar::CmdParams> CmdParams;
 utils::bsSet<tvarvaltype, GMS_VAL_MAX> ActiveFields;
 FldOnly fldOnly;
@@ -170,6 +171,32 @@ void RegisterDiffUELs() {
   diffUELsRegistered = true;
 }
 
+// Value of PGX as stored in the difference file: the acronyms of both input
+// files are entered by name, as the same index can mean different acronyms
+double DiffValue(const gdxHandle_t &PGX, const double V) {
+  library::ShortString Name, Txt;
+  const int Indx{gdxAcronymIndex(PGX, V)};
+  if (Indx <= 0 || gdxAcronymName(PGX, V, Name.data()) == 0) {
+    return V;
+  }
+
+  auto it{DiffAcronyms.find(gdlib::strutilx::UpperCase(Name.string()))};
+  if (it == DiffAcronyms.end()) {
+    for (int N{1}; N <= gdxAcronymCount(PGX); N++) {
+      library::ShortString AName, ATxt;
+      int AIndx;
+      if (gdxAcronymGetInfo(PGX, N, AName.data(), ATxt.data(), &AIndx) != 0 && AIndx == Indx) {
+        Txt = ATxt.string();
+        break;
+      }
+    }
+    const int NewIndx{static_cast<int>(DiffAcronyms.size()) + 1};
+    it = DiffAcronyms.emplace(gdlib::strutilx::UpperCase(Name.string()), NewIndx).first;
+    gdxAcronymAdd(PGXDIF, Name.data(), Txt.data(), NewIndx);
+  }
+  return gdxAcronymValue(PGXDIF, it->second);
+}
+
 void CompareSy(const int Sy1, const int Sy2) {
   int Dim, VarEquType;
   gdxSyType ST;
@@ -213,6 +240,8 @@ void CompareSy(const int Sy1, const int Sy2) {
 
     gdxValues_t Vals2{};
 
+    const gdxHandle_t &PGX{Act == c_ins1 || Act == c_dif1 ? PGX1 : PGX2};
+
     RegisterDiffUELs();
     for (int D{}; D < Dim; D++) {
       // TODO: Improve this check (especially the else case)
@@ -240,11 +269,13 @@ void CompareSy(const int Sy1, const int Sy2) {
 #endif
 
     if (fldOnly == FldOnly::fld_yes && (ST == dt_var || ST == dt_equ)) {
-      Vals2[GMS_VAL_LEVEL] = Vals[fldOnlyFld];
-      gdxDataWriteStr(PGXDIF, const_cast<const char **>(StrKeysPtrs), Vals2);
+      Vals2[GMS_VAL_LEVEL] = DiffValue(PGX, Vals[fldOnlyFld]);
     } else {
-      gdxDataWriteStr(PGXDIF, const_cast<const char **>(StrKeysPtrs), Vals);
+      for (int T{}; T < GMS_VAL_MAX; T++) {
+        Vals2[T] = DiffValue(PGX, Vals[T]);
+      }
     }
+    gdxDataWriteStr(PGXDIF, const_cast<const char **>(StrKeysPtrs), Vals2);
   };
 
   auto WriteSetDiff = [&](const std::string &Act, const gdxUelIndex_t &Keys, const library::ShortString &S) -> void {
-- 
2.43.0


From 21b042eb60cc6db01b0db7922267bc5c42547279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:02 +0000
Subject: [PATCH 47/81] fix: gdxdiff uses the default records of equations

---
 src/tools/gdxdiff/gdxdiff.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index 2418009..c008241 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -604,9 +604,14 @@ void CompareSy(const int Sy1, const int Sy2) {
   // Create default record for this type
   if (ST == dt_var || ST == dt_equ) {
     if (ST == dt_var) {
-      std::copy(std::begin(gmsDefRecVar[VarEquType]), std::end(gmsDefRecVar[VarEquType]), std::begin(DefValues));
+      const int VarType{VarEquType < 0 || VarEquType >= GMS_VARTYPE_MAX ? GMS_VARTYPE_FREE : VarEquType};
+      std::copy(std::begin(gmsDefRecVar[VarType]), std::end(gmsDefRecVar[VarType]), std::begin(DefValues));
     } else {
-      std::copy(std::begin(gmsDefRecEqu[VarEquType]), std::end(gmsDefRecEqu[VarEquType]), std::begin(DefValues));
+      int EquType{gmsFixEquType(VarEquType)};
+      if (EquType < GMS_EQUTYPE_E || EquType > GMS_EQUTYPE_B) {
+        EquType = GMS_EQUTYPE_E;
+      }
+      std::copy(std::begin(gmsDefRecEqu[EquType]), std::end(gmsDefRecEqu[EquType]), std::begin(DefValues));
     }
   }
 
-- 
2.43.0


From a74b18657acf6db5b3280fb9cde205018b182057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:38 +0000
Subject: [PATCH 48/81] fix: gdxdiff does not take an alias target for a set
 type

---
 src/tools/gdxdiff/gdxdiff.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index c008241..9328cac 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -543,6 +543,10 @@ void CompareSy(const int Sy1, const int Sy2) {
   }
   // We do nothing with type in file2
   gdxSymbolInfoX(PGX1, Sy1, &acount, &VarEquType, stxt.data());
+  if (iST == dt_alias) {
+    // This is the number of the aliased symbol
+    VarEquType = 0;
+  }
 
   gdxSymbolInfo(PGX2, Sy2, ID.data(), &Dim2, &iST2);
   ST2 = static_cast<gdxSyType>(iST2);
-- 
2.43.0


From 74ca98d5196eed365633605681d926c59f7dfa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:38 +0000
Subject: [PATCH 49/81] fix: gdxdiff DiffOnly needs two more dimensions

---
 src/tools/gdxdiff/gdxdiff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index 9328cac..fb4887b 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -619,7 +619,7 @@ void CompareSy(const int Sy1, const int Sy2) {
     }
   }
 
-  if (Dim >= GMS_MAX_INDEX_DIM || (DiffOnly && Dim - 1 >= GMS_MAX_INDEX_DIM)) {
+  if (Dim >= GMS_MAX_INDEX_DIM || (DiffOnly && (ST == dt_var || ST == dt_equ) && Dim + 1 >= GMS_MAX_INDEX_DIM)) {
     Status = StatusCode::sc_dim10;
   }
 
-- 
2.43.0


From c435e94ba08a0a834930c0bc278dd70d2a24db86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:38 +0000
Subject: [PATCH 50/81] fix: gdxdiff separates the number of a FilesCompared
 symbol by an underscore

---
 src/tools/gdxdiff/gdxdiff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index fb4887b..00570b5 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -1141,7 +1141,7 @@ int main(const int argc, const char *argv[]) {
     do {
       ID = "FilesCompared";
       if (N > 0) {
-        ID += std::to_string('_') + std::to_string(N);
+        ID += "_" + std::to_string(N);
       }
       if (gdxFindSymbol(PGXDIF, ID.data(), &NN) == 0) {
         break;
-- 
2.43.0


From d80dece0bc970f067441431eb51735c9fcb20502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:50 +0000
Subject: [PATCH 51/81] fix: gdxdiff shows the labels of matrix files

---
 src/tools/gdxdiff/gdxdiff.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index 00570b5..edd0284 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -171,6 +171,21 @@ void RegisterDiffUELs() {
   diffUELsRegistered = true;
 }
 
+// Label of a key read from PGX: matrix files are read with the label numbers
+// of the file itself (and need not have labels), others with those of UELTable
+void GetLabel(const gdxHandle_t &PGX, const int Key, char *Label) {
+  int N;
+  if (matrixFile) {
+    if (gdxUMUelGet(PGX, Key, Label, &N) != 0) {
+      return;
+    }
+  } else if (Key < UELTable->Count()) {
+    std::strcpy(Label, UELTable->GetString(Key));
+    return;
+  }
+  std::snprintf(Label, GMS_SSSIZE, "L__%d", Key);
+}
+
 // Value of PGX as stored in the difference file: the acronyms of both input
 // files are entered by name, as the same index can mean different acronyms
 double DiffValue(const gdxHandle_t &PGX, const double V) {
@@ -244,12 +259,7 @@ void CompareSy(const int Sy1, const int Sy2) {
 
     RegisterDiffUELs();
     for (int D{}; D < Dim; D++) {
-      // TODO: Improve this check (especially the else case)
-      if (Keys[D] < UELTable->Count()) {
-        std::strcpy(StrKeysPtrs[D], UELTable->GetString(Keys[D]));
-      } else {
-        std::snprintf(StrKeysPtrs[D], GMS_SSSIZE, "L__%d", Keys[D]);
-      }
+      GetLabel(PGX, Keys[D], StrKeysPtrs[D]);
     }
     if (!DiffOnly || (ST != dt_var && ST != dt_equ)) {
       std::strcpy(StrKeysPtrs[Dim], Act.data());
@@ -288,7 +298,7 @@ void CompareSy(const int Sy1, const int Sy2) {
 
     RegisterDiffUELs();
     for (int D{}; D < Dim; D++) {
-      std::strcpy(StrKeysPtrs[D], UELTable->GetString(Keys[D]));
+      GetLabel(Act == c_ins1 || Act == c_dif1 ? PGX1 : PGX2, Keys[D], StrKeysPtrs[D]);
     }
     std::strcpy(StrKeysPtrs[Dim], Act.data());
     gdxAddSetText(PGXDIF, S.data(), &iNode);
-- 
2.43.0


From 2acda58b7d911956847afe58f0f118ffb7754c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:55 +0000
Subject: [PATCH 52/81] fix: gdxmerge reads only the existing indices of big
 symbols

---
 src/tools/gdxmerge/gdxmerge.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 1daf28b..bb258c4 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -334,8 +334,11 @@ bool SymbolList::CollectBigOne(const int SyNr) {
       IndxI[0] = AddUEL(FileId);
       gdxDataReadStrStart(PGX, N, &NrRecs);
       while (gdxDataReadStr(PGX, IndxSPtrs, Vals, &FDim) != 0) {
-        for (D = FDim - 1; D <= SyObj->SyDim; D++) {
-          IndxI[D + 1] = AddUEL(library::ShortString{IndxSPtrs[D]});
+        // SyDim includes the additional dimension for the file
+        if (SyObj->SyDim > 1) {
+          for (D = FDim - 1; D < SyObj->SyDim - 1; D++) {
+            IndxI[D + 1] = AddUEL(library::ShortString{IndxSPtrs[D]});
+          }
         }
         if (SyObj->SyTyp == dt_set && Vals[GMS_VAL_LEVEL] != 0) {
           gdxGetElemText(PGX, utils::round<int>(Vals[GMS_VAL_LEVEL]), Txt.data(), &INode);
-- 
2.43.0


From bdbce0b7472749978b8f2f096be1d8fcde6da961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:17 +0000
Subject: [PATCH 53/81] fix: gdxmerge counts each input file once

---
 src/tools/gdxmerge/gdxmerge.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index bb258c4..55c63c6 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -179,7 +179,10 @@ void SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
     library::printErrorMessage("\nError reading file, message: " + ErrMsg);
     return;
   }
-  InputFilesRead++;
+  // Files are read again after scanning
+  if (Pass != ProcessPass::RpScan) {
+    InputFilesRead++;
+  }
 
   ShareAcronyms(PGX);
 
-- 
2.43.0


From 7b38e24b184f3a9970363fbf918ad9406605ba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:52 +0000
Subject: [PATCH 54/81] fix: gdxmerge ignores the case of the names to include
 or exclude

---
 src/tools/gdxmerge/gdxmerge.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 55c63c6..e4f680d 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -124,7 +124,9 @@ int SymbolList::AddUEL(const library::ShortString &S) {
 
 int SymbolList::AddSymbol(const std::string &AName, const int ADim, const gdxSyType AType, const int ASubTyp) {
   auto is_in_list = [](const std::vector<std::string> &list, const std::string &value) {
-    return std::find(list.begin(), list.end(), value) != list.end();
+    return std::any_of(list.begin(), list.end(), [&value](const std::string &item) {
+      return gdlib::strutilx::StrUEqual(item, value);
+    });
   };
 
   if ((!IncludeList.empty() && !is_in_list(IncludeList, AName)) ||
-- 
2.43.0


From a3e809e1ad1fe18f0630b874deacce147af8749a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:26 +0000
Subject: [PATCH 55/81] fix: gdxmerge checks the compatibility of big symbols
 and keeps their text

---
 src/tools/gdxmerge/gdxmerge.cpp | 37 +++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index e4f680d..2a42fff 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -299,7 +299,7 @@ void SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
 
 bool SymbolList::CollectBigOne(const int SyNr) {
   gdxHandle_t PGX;
-  int N, NrRecs, FDim, D, INode, ErrNr, FNr;
+  int N, NrRecs, FDim, D, INode, ErrNr, FNr, Dim, SyITyp, SySubTyp, DummyCount;
   GAMSSymbol *SyObj;
 
   gdxStrIndex_t IndxS{};
@@ -308,7 +308,20 @@ bool SymbolList::CollectBigOne(const int SyNr) {
 
   gdxUelIndex_t IndxI{};
   gdxValues_t Vals{};
-  library::ShortString Txt, ErrMsg, FileName, FileId;
+  library::ShortString Txt, ErrMsg, FileName, FileId, SyName, SyText;
+  bool FrstError;
+
+  auto CheckError = [&](const bool Cnd, const std::string &Msg) -> bool {
+    if (!Cnd) {
+      FErrorCount++;
+      if (FrstError) {
+        library::printErrorMessage("\n**** Error in file " + FileName);
+        FrstError = false;
+      }
+      library::printErrorMessage("     " + Msg + ": " + SyName);
+    }
+    return !Cnd;
+  };
 
   SyObj = gdlib::gmsobj::TXHashedStringList<GAMSSymbol>::GetObject(SyNr);
   if (!SyObj->SyData) {
@@ -334,6 +347,26 @@ bool SymbolList::CollectBigOne(const int SyNr) {
     }
 
     if (gdxFindSymbol(PGX, gdlib::gmsobj::TXHashedStringList<GAMSSymbol>::GetString(SyNr), &N) > 0) {
+      gdxSymbolInfo(PGX, N, SyName.data(), &Dim, &SyITyp);
+      gdxSymbolInfoX(PGX, N, &DummyCount, &SySubTyp, SyText.data());
+      FrstError = true;
+      // Same treatment as in AddPGXFile
+      if (Dim >= GMS_MAX_INDEX_DIM ||
+          CheckError(Dim + 1 == SyObj->SyDim, "Dimensions do not match") ||
+          CheckError((SyITyp == GMS_DT_ALIAS ? dt_set : gdxSyType(SyITyp)) == SyObj->SyTyp, "Types do not match") ||
+          ((SyObj->SyTyp == dt_var || SyObj->SyTyp == dt_equ) &&
+           CheckError(SySubTyp == SyObj->SySubTyp, "Var/Equ subtypes do not match"))) {
+        gdxClose(PGX);
+        gdxFree(&PGX);
+        continue;
+      }
+
+      if (SyObj->SyExplTxt.empty()) {
+        SyObj->SyExplTxt = SyText;
+      } else if (!SyText.empty()) {
+        CheckError(SyObj->SyExplTxt == SyText, "Explanatory text is different");
+      }
+
       // We did this already in AddPGXFile:
       // ShareAcronyms(PGX);
       IndxI[0] = AddUEL(FileId);
-- 
2.43.0


From c2e6ccfb320f68b8c227a54c9c24e255d69c3175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:21 +0000
Subject: [PATCH 56/81] fix: gdxmerge maps the acronyms of big symbols

---
 src/tools/gdxmerge/gdxmerge.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 2a42fff..18a4ecd 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -367,8 +367,7 @@ bool SymbolList::CollectBigOne(const int SyNr) {
         CheckError(SyObj->SyExplTxt == SyText, "Explanatory text is different");
       }
 
-      // We did this already in AddPGXFile:
-      // ShareAcronyms(PGX);
+      ShareAcronyms(PGX);
       IndxI[0] = AddUEL(FileId);
       gdxDataReadStrStart(PGX, N, &NrRecs);
       while (gdxDataReadStr(PGX, IndxSPtrs, Vals, &FDim) != 0) {
-- 
2.43.0


From 2e5719918913ba2791d4f89c4970a5f60fd4fa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:55 +0000
Subject: [PATCH 57/81] fix: gdxmerge gives every input file its own identifier

---
 src/tools/gdxmerge/gdxmerge.cpp | 34 ++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 18a4ecd..ad16c54 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -400,6 +400,24 @@ bool SymbolList::FindGDXFiles(const std::string &Path) {
   std::string WPath, BPath, ShortName, NewName, DTS;
   double DT;
 
+  auto FileInUse = [this](const std::string &FileName) -> bool {
+    for (int N{}; N < fileList->size(); N++) {
+      if (fileList->FileName(N) == FileName) {
+        return true;
+      }
+    }
+    return false;
+  };
+
+  auto IdInUse = [this](const std::string &Id) -> bool {
+    for (int N{}; N < fileList->size(); N++) {
+      if (gdlib::strutilx::StrUEqual(fileList->FileId(N), Id)) {
+        return true;
+      }
+    }
+    return false;
+  };
+
   // Normal file or file pattern
   bool Result{true};
 
@@ -417,10 +435,20 @@ bool SymbolList::FindGDXFiles(const std::string &Path) {
         continue;
       }
 
+      // A file can match several patterns
+      if (FileInUse(BPath + Rec.Name)) {
+        continue;
+      }
+
       ShortName = gdlib::strutilx::ChangeFileExtEx(Rec.Name, "");
-      if (!library::goodUELString(ShortName.data(), ShortName.length()) || utils::trim(ShortName).empty()) {
-        NewName = "File_" + std::to_string(fileList->size() + 1);
-        std::cout << "*** Filename cannot be used as a valid UEL\n"
+      const bool GoodName{library::goodUELString(ShortName.data(), ShortName.length()) && !utils::trim(ShortName).empty()};
+      if (!GoodName || IdInUse(ShortName)) {
+        int N{fileList->size()};
+        do {
+          N++;
+          NewName = "File_" + std::to_string(N);
+        } while (IdInUse(NewName));
+        std::cout << (GoodName ? "*** Filename is already used for another file\n" : "*** Filename cannot be used as a valid UEL\n")
                   << "    Existing name: " << ShortName << '\n'
                   << "    Replaced with: " << NewName << '\n';
         ShortName = NewName;
-- 
2.43.0


From 8ba17702baff0b72f609bb44850656621dc8a244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:13 +0000
Subject: [PATCH 58/81] fix: gdxmerge skips unreadable files for big symbols as
 for others

---
 src/tools/gdxmerge/gdxmerge.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index ad16c54..5efc896 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -343,7 +343,8 @@ bool SymbolList::CollectBigOne(const int SyNr) {
     if (ErrNr != 0) {
       gdxErrorStr(PGX, ErrNr, ErrMsg.data());
       library::printErrorMessage("Error reading file, message: " + ErrMsg);
-      return false;
+      gdxFree(&PGX);
+      continue;
     }
 
     if (gdxFindSymbol(PGX, gdlib::gmsobj::TXHashedStringList<GAMSSymbol>::GetString(SyNr), &N) > 0) {
-- 
2.43.0


From 5b314899f6c272204986dc64997fa30b8c9c0313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:50 +0000
Subject: [PATCH 59/81] fix: gdxmerge strict mode fails for unreadable input
 files

---
 src/tools/gdxmerge/gdxmerge.cpp | 16 ++++++++++++----
 src/tools/gdxmerge/gdxmerge.hpp |  2 +-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 5efc896..88fc810 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -137,7 +137,7 @@ int SymbolList::AddSymbol(const std::string &AName, const int ADim, const gdxSyT
   return TXHashedStringList::AddObject(AName.data(), AName.length(), new GAMSSymbol(ADim, AType, ASubTyp));
 }
 
-void SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
+bool SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
   bool FrstError;
   library::ShortString SyName;
   std::string FileName;
@@ -179,7 +179,8 @@ void SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
   if (ErrNr != 0) {
     gdxErrorStr(PGX, ErrNr, ErrMsg.data());
     library::printErrorMessage("\nError reading file, message: " + ErrMsg);
-    return;
+    gdxFree(&PGX);
+    return false;
   }
   // Files are read again after scanning
   if (Pass != ProcessPass::RpScan) {
@@ -295,6 +296,7 @@ void SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
   gdxFree(&PGX);
 
   gdxUELRegisterDone(PGXMerge);
+  return true;
 }
 
 bool SymbolList::CollectBigOne(const int SyNr) {
@@ -839,7 +841,10 @@ int main(const int argc, const char *argv[]) {
   InputFilesRead = 0;
   if (!DoBigSymbols) {
     for (N = 0; N < SyList->GetFileListSize(); N++) {
-      SyList->AddPGXFile(N, ProcessPass::RpDoAll);
+      if (!SyList->AddPGXFile(N, ProcessPass::RpDoAll) && StrictMode) {
+        library::printErrorMessage("*** Error  : Cannot read input file (strict mode)");
+        return 1;
+      }
     }
 
     for (N = 0; N < SyList->size(); N++) {
@@ -847,7 +852,10 @@ int main(const int argc, const char *argv[]) {
     }
   } else {
     for (N = 0; N < SyList->GetFileListSize(); N++) {
-      SyList->AddPGXFile(N, ProcessPass::RpScan);
+      if (!SyList->AddPGXFile(N, ProcessPass::RpScan) && StrictMode) {
+        library::printErrorMessage("*** Error  : Cannot read input file (strict mode)");
+        return 1;
+      }
     }
 
     for (N = 0; N < SyList->GetFileListSize(); N++) {
diff --git a/src/tools/gdxmerge/gdxmerge.hpp b/src/tools/gdxmerge/gdxmerge.hpp
index a99e666..786b6d6 100644
--- a/src/tools/gdxmerge/gdxmerge.hpp
+++ b/src/tools/gdxmerge/gdxmerge.hpp
@@ -71,7 +71,7 @@ public:
   static void OpenOutput(const library::ShortString &AFileName, int &ErrNr);
   static int AddUEL(const library::ShortString &S);
   int AddSymbol(const std::string &AName, int ADim, gdxSyType AType, int ASubTyp);
-  void AddPGXFile(int FNr, ProcessPass Pass);
+  bool AddPGXFile(int FNr, ProcessPass Pass);
   bool CollectBigOne(int SyNr);
   bool FindGDXFiles(const std::string &Path);
   void WritePGXFile(int SyNr, ProcessPass Pass);
-- 
2.43.0


From 8c0e8062366b12498d8ef8e099de17ea95f3014e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:17 +0000
Subject: [PATCH 60/81] fix: gdxmerge keeps an old output file when the options
 are refused

---
 src/tools/gdxmerge/gdxmerge.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 88fc810..9caa2ce 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -806,6 +806,12 @@ int main(const int argc, const char *argv[]) {
     return 1;
   }
 
+  if (!SyList->IsIncludeListEmpty() && !SyList->IsExcludeListEmpty()) {
+    // TODO: Use four stars here instead of the usual three?
+    library::printErrorMessage(R"(**** The options "ID" and "Exclude" are mutual exclusive)");
+    return 1;
+  }
+
   if (rtl::sysutils_p3::FileExists(OutFile)) {
     if (StrictMode) {
       library::printErrorMessage("*** Error  : Output file \"" + OutFile + "\" already exists (strict mode)");
@@ -815,12 +821,6 @@ int main(const int argc, const char *argv[]) {
     rtl::sysutils_p3::DeleteFileFromDisk(OutFile);
   }
 
-  if (!SyList->IsIncludeListEmpty() && !SyList->IsExcludeListEmpty()) {
-    // TODO: Use four stars here instead of the usual three?
-    library::printErrorMessage(R"(**** The options "ID" and "Exclude" are mutual exclusive)");
-    return 1;
-  }
-
   gdxmerge::SymbolList::OpenOutput(OutFile, ErrNr);
   std::cout << "Output file: " << OutFile << '\n';
   if (ErrNr != 0) {
-- 
2.43.0


From c3bab8322e6b74b13fc054d9c8dbcd94afaa6df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:22 +0000
Subject: [PATCH 61/81] fix: DblToStrSep terminates the text in the buffer

---
 src/gdlib/strutilx.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/gdlib/strutilx.cpp b/src/gdlib/strutilx.cpp
index 74bd67b..562d3f0 100644
--- a/src/gdlib/strutilx.cpp
+++ b/src/gdlib/strutilx.cpp
@@ -362,16 +362,10 @@ uint8_t DblToStrSep(double V, const char DecimalSep, char* sout)
    uint8_t slen = DblToStrSepCore( V, DecimalSep, sout );
    // only with short strings
    int i {};
-   for( int l {}; l < slen; i++, l++ )
-   {
-      if( sout[l] == ' ' )
-      {
-         while( sout[++l] == ' ' && sout[l] != '\0' )
-            ;
-      }
-      sout[i] = sout[l];
-   }
-   return ui8(i - 1);
+   for( int l {}; l < slen; l++ )
+      if( sout[l] != ' ' ) sout[i++] = sout[l];
+   sout[i] = '\0';
+   return ui8(i);
 }
 
 std::string DblToStr( const double V )
-- 
2.43.0


From 3559ba09c4095ac2d35356ec04e8e9704b5ae4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:22 +0000
Subject: [PATCH 62/81] fix: infinities and NaN are formatted without reading
 and writing outside the buffer

---
 src/gdlib/strutilx.cpp | 2 ++
 src/rtl/p3io.cpp       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/gdlib/strutilx.cpp b/src/gdlib/strutilx.cpp
index 562d3f0..24eae16 100644
--- a/src/gdlib/strutilx.cpp
+++ b/src/gdlib/strutilx.cpp
@@ -251,6 +251,8 @@ static uint8_t DblToStrSepCore(double V, const char DecimalSep, char *s)
    // output string has E notation (https://en.wikipedia.org/wiki/Scientific_notation#E_notation)
    // example: 2.30000000000000E+0001 for 23
    const auto slen = static_cast<int>( std::strlen( s ) );
+   if( !std::isfinite( V ) )
+      return ui8(slen);
    if( V < 0.0 )
       V = -V;
    const auto k { RChSetPos( "+-", s, slen ) },
diff --git a/src/rtl/p3io.cpp b/src/rtl/p3io.cpp
index 11f1170..3b83afd 100644
--- a/src/rtl/p3io.cpp
+++ b/src/rtl/p3io.cpp
@@ -30,6 +30,7 @@
 #include <cmath>
 #include <array>
 #include <stdexcept>
+#include <string>
 
 #include "p3io.hpp"
 #include "dtoaLoc.h"
@@ -134,6 +135,7 @@ void P3_Str_dd0( const double x, char *s, const uint8_t sMax, size_t *eLen )
       // inf or NaN: take string as returned
       dBuf[10] = '\0';// just in case, but should never be necessary
       padLeftC2P( dBuf.data(), std::strlen( dBuf.data() ), 23, s, sMax );
+      s[23] = '\0';
    }
 }
 
-- 
2.43.0


From babcf61bcb7a2d8026dc3ae7a9075f2a4b101738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:11 +0000
Subject: [PATCH 63/81] fix: val handles texts of any length

---
 src/rtl/p3io.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/rtl/p3io.cpp b/src/rtl/p3io.cpp
index 3b83afd..bbea980 100644
--- a/src/rtl/p3io.cpp
+++ b/src/rtl/p3io.cpp
@@ -179,9 +179,8 @@ void P3_Val_dd(const char *s, double *d, int *code)
 
 void P3_Val_dd(const char *s, size_t slen, double *d, int *code)
 {
-   std::array<char, 256> buffer;
-   std::memcpy(buffer.data(), s, sizeof(char)*(slen+1));
-   buffer[slen] = '\0';
+   // texts can be longer than a short string
+   std::string buffer( s, slen );
 
    // skip over blanks
    // - Kylix 3 does not treat any other chars as whitespace
@@ -259,8 +258,8 @@ void P3_Val_i(const char *s, int *i, int *code)
  */
 void P3_Val_i( const char *s, size_t slen, int *i, int *code )
 {
-   std::array<char, 256> buffer;
-   std::memcpy( buffer.data(), s, sizeof( char ) * ( slen + 1 ) );
+   // texts can be longer than a short string
+   std::string buffer( s, slen );
 
    // skip over blanks
    // - Kylix 3 does not treat any other chars as whitespace
-- 
2.43.0


From a1050a309a14b1f36c42c93b5d60c445d5bce681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:11 +0000
Subject: [PATCH 64/81] fix: val refuses integers that do not fit

---
 src/rtl/p3io.cpp | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/rtl/p3io.cpp b/src/rtl/p3io.cpp
index bbea980..4eb2710 100644
--- a/src/rtl/p3io.cpp
+++ b/src/rtl/p3io.cpp
@@ -29,6 +29,7 @@
 #include <cstdlib>
 #include <cmath>
 #include <array>
+#include <limits>
 #include <stdexcept>
 #include <string>
 
@@ -252,6 +253,20 @@ void P3_Val_i(const char *s, int *i, int *code)
    P3_Val_i(s, len, i, code);
 }
 
+/* result code of val for the integer n, which was read up to end:
+ * 0 if the whole text was read and the number is within the limits
+ */
+static int valIntCode( const char *start, const char *end, const long long n, const long long lowest, const long long highest )
+{
+   if( '\0' == *end )
+   {
+      if( n >= lowest && n <= highest )
+         return 0;
+      end--;
+   }
+   return static_cast<int>( end - start + 1 );
+}
+
 /* valid strings look like: [+|-][0x|$]d+,
  * where d is a decimal digit unless preceded by the 0x or $,
  * in which case it is a hex digit
@@ -280,13 +295,15 @@ void P3_Val_i( const char *s, size_t slen, int *i, int *code )
    if( (*sd > '0' && *sd <= '9') || ('0' == *sd && ( '\0' == sd[1] || (sd[1] >= '0' && sd[1] <= '9') )) )
    {
       char *end;
-      const auto li = strtol( s2, &end, 10 );
+      const auto li = strtoll( s2, &end, 10 );
       *i = static_cast<int>(li);
-      // reached the end, things went OK
-      *code = '\0' == *end ? 0 : static_cast<int>( end - buffer.data() + 1 );
+      *code = valIntCode( buffer.data(), end, li, std::numeric_limits<int>::min(), std::numeric_limits<int>::max() );
       return;
    }
 
+   // hex strings can have any pattern of 32 bits
+   constexpr long long maxHex { std::numeric_limits<uint32_t>::max() };
+
    // if not a decimal string,
    // must be either $ffff or 0xffff or an error
    if( '$' == *sd )
@@ -299,10 +316,9 @@ void P3_Val_i( const char *s, size_t slen, int *i, int *code )
          else
             sd++;
          char *end;
-         const auto li = strtol( sd, &end, 16 );
+         const auto li = strtoll( sd, &end, 16 );
          *i = static_cast<int>(li);
-         // reached the end, things went OK
-         *code = '\0' == *end ? 0 : static_cast<int>( end - buffer.data() + 1 );
+         *code = valIntCode( buffer.data(), end, li, -maxHex, maxHex );
       }
       else
       {
@@ -315,18 +331,12 @@ void P3_Val_i( const char *s, size_t slen, int *i, int *code )
    if( '0' == *sd && ( 'x' == sd[1] || 'X' == sd[1] ) )
    {
       char *end;
-      const auto li = strtol( s2, &end, 16 );
+      const auto li = strtoll( s2, &end, 16 );
       *i = static_cast<int>(li);
-      // reached the end, things went OK
-      if( '\0' == *end )
-         *code = 0;
-      else
-      {
-         // we already read the 0x, that is not an error for val
-         if( end < sd + 2 )
-            end = sd + 2;
-         *code = static_cast<int>( end - buffer.data() + 1 );
-      }
+      // we already read the 0x, that is not an error for val
+      if( '\0' != *end && end < sd + 2 )
+         end = sd + 2;
+      *code = end == sd + 2 ? static_cast<int>( end - buffer.data() + 1 ) : valIntCode( buffer.data(), end, li, -maxHex, maxHex );
       return;
    }
    *i = 0;
-- 
2.43.0


From b208055996cb5117ad859ab59efd867536401afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:11 +0000
Subject: [PATCH 65/81] fix: val accepts hex strings with a leading lower case
 digit

---
 src/rtl/p3io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtl/p3io.cpp b/src/rtl/p3io.cpp
index 4eb2710..1678bd9 100644
--- a/src/rtl/p3io.cpp
+++ b/src/rtl/p3io.cpp
@@ -308,7 +308,7 @@ void P3_Val_i( const char *s, size_t slen, int *i, int *code )
    // must be either $ffff or 0xffff or an error
    if( '$' == *sd )
    {
-      if( ( sd[1] >= '0' && sd[1] <= '9' ) || ( sd[1] >= 'A' && sd[1] <= 'F' ) )
+      if( ( sd[1] >= '0' && sd[1] <= '9' ) || ( tolower( sd[1] ) >= 'a' && tolower( sd[1] ) <= 'f' ) )
       {
          // isxdigit
          if( -1 == sign )
-- 
2.43.0


From 10250d8764e490ada4f0269acc770dff7fdcdc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:12 +0000
Subject: [PATCH 66/81] fix: IntToHex pads to the requested width and handles
 negative numbers

---
 src/rtl/sysutils_p3.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rtl/sysutils_p3.cpp b/src/rtl/sysutils_p3.cpp
index 392c73d..01c0856 100644
--- a/src/rtl/sysutils_p3.cpp
+++ b/src/rtl/sysutils_p3.cpp
@@ -894,11 +894,12 @@ std::string IntToHex( int64_t v, int w )
       w = 0;
    int i { MAXW-1 };
    std::array<char, MAXW> buf {};
+   auto u { static_cast<uint64_t>( v ) };
    do
    {
-      buf[i--] = hex[0xF & v];
-      v >>= 4;
-   } while(v || w + i > MAXW);
+      buf[i--] = hex[0xF & u];
+      u >>= 4;
+   } while(u || w + i >= MAXW);
    return {buf.begin()+i+1, buf.end()};
 }
 
-- 
2.43.0


From 9e7cae00dfc78ef169ba4087d8c95dc5e215a799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:12 +0000
Subject: [PATCH 67/81] fix: ExcelColStr gives the letters in the right order

---
 src/gdlib/strutilx.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gdlib/strutilx.cpp b/src/gdlib/strutilx.cpp
index 24eae16..9361e2d 100644
--- a/src/gdlib/strutilx.cpp
+++ b/src/gdlib/strutilx.cpp
@@ -152,6 +152,7 @@ std::string ExcelColStr( int C )
    std::string res;
    for( res.clear(); C; C /= 26 )
       res += static_cast<char>( ord( 'A' ) + --C % 26 );
+   std::reverse( res.begin(), res.end() );
    return res;
 }
 
-- 
2.43.0


From d3def508bb18aa01a1d1aedc49d845789d5b6095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:12 +0000
Subject: [PATCH 68/81] fix: StrExcelCol refuses columns that do not fit in an
 integer

---
 src/gdlib/strutilx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/strutilx.cpp b/src/gdlib/strutilx.cpp
index 9361e2d..61d6f5d 100644
--- a/src/gdlib/strutilx.cpp
+++ b/src/gdlib/strutilx.cpp
@@ -139,7 +139,7 @@ int StrExcelCol( const std::string &s )
    for( int i {}; i < static_cast<int>( s.length() ); i++ )
    {
       const int j { ord(toupper( s[i] )) - ord( 'A' ) };
-      if( j < 0 || j > 25 || res >= std::numeric_limits<int>::max() / 26 + 26 )
+      if( j < 0 || j > 25 || res > ( std::numeric_limits<int>::max() - j - 1 ) / 26 )
          return 0;
       res = res * 26 + j + 1;
    }
-- 
2.43.0


From 058d3ba9790dd0f10fac6ed8c8b6350512cc2457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:56 +0000
Subject: [PATCH 69/81] fix: EncodeDate counts January and February 1600 from
 the same origin as other dates

---
 src/rtl/sysutils_p3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtl/sysutils_p3.cpp b/src/rtl/sysutils_p3.cpp
index 01c0856..8283aa6 100644
--- a/src/rtl/sysutils_p3.cpp
+++ b/src/rtl/sysutils_p3.cpp
@@ -285,7 +285,7 @@ void DecodeTime( const TDateTime DateTime, uint16_t &Hour, uint16_t &Min, uint16
 double EncodeDate( uint16_t Year, uint16_t Month, const uint16_t Day )
 {
    if( Year == 1600.0 && Month < 3.0 )
-      return Day + ( Month == 1 ? 1.0 : 30.0 );
+      return Day + ( Month == 1 ? 0.0 : 31.0 ) - 109572;
    if( Month > 2 ) Month -= 3;
    else
    {
-- 
2.43.0


From f7e35cbf74c6bc44bd696e4b08d4dc7378287dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:10 +0000
Subject: [PATCH 70/81] fix: FloatToStr gives the text of the number

---
 src/rtl/sysutils_p3.cpp | 100 ++--------------------------------------
 1 file changed, 3 insertions(+), 97 deletions(-)

diff --git a/src/rtl/sysutils_p3.cpp b/src/rtl/sysutils_p3.cpp
index 8283aa6..e4e23ec 100644
--- a/src/rtl/sysutils_p3.cpp
+++ b/src/rtl/sysutils_p3.cpp
@@ -32,6 +32,7 @@
 
 #include "unit.h"// for UNIT_INIT_FINI
 
+#include "strutilx.hpp"// for DblToStr
 #include "utils.hpp"// for ui16
 
 #if defined( _WIN32 )
@@ -911,104 +912,9 @@ int StrToInt( const std::string &S )
    return static_cast<int>(Res);
 }
 
-// this is VERY ugly, edit the str() ShortString
-// FIXME: TODO: AS: Not yet really tested! Compare with p3 and parallel step through with Lazarus
-std::string FloatToStr( double v )
+std::string FloatToStr( const double v )
 {
-   std::array<char, 64> sbuf {};
-
-   if( v == 0.0 )
-      return "0"s;
-
-   size_t eLen;
-   p3io::P3_Str_dd0( v, sbuf.data(), 64, &eLen );
-   std::string s { sbuf.data() };
-   if( v < 0.0 )
-      v = -v;
-   const int k = LastDelimiter( "+-"s, s );
-   int j = utils::pos( '.', s );
-   if( v >= 1e-4 && v < 1e15 )
-   {
-      int i, e;
-      utils::val( s.substr( k, 5 ), e, i );
-      for( i = k - 1; i <= static_cast<int>( s.length() ); i++ )
-         s[i] = '0';
-      if( e >= 0 )
-      {
-         for( i = j + 1; i <= j + e; i++ )
-         {
-            s[i - 1] = s[i];
-         }
-         s[j + e] = '.';
-         for( i = static_cast<int>( s.length() ); i >= j + e + 1; i-- )
-         {
-            s[i] = ' ';
-            if( i == j + e + 1 )
-               s[j + e] = ' ';
-            else
-               break;
-         }
-      }
-      else
-      {
-         s[j] = s[j - 1];
-         s[j - 1] = '0';
-         e = -e;
-         s.resize( k + e - 2 );
-         for( i = k - 2; i >= j; i-- )
-            s[i + e] = s[i];
-         for( i = j + 1; i <= j + e - 1; i++ )
-            s[i] = '0';
-         s[j] = '.';
-         for( i = static_cast<int>( s.length() ); i >= j + e + 1; i-- )
-         {
-            if( s[i] == '0' )
-               s[i] = ' ';
-            else
-               break;
-         }
-      }
-   }
-   else
-   {
-      if( s[k] == '+' )
-         s[k] = ' ';
-      for( int i = k + 1; i <= static_cast<int>( s.length() ) - 1; i++ )
-      {
-         if( s[i] == '0' )
-         {
-            s[i] = ' ';
-            if( i == static_cast<int>( s.length() ) )
-               s[k - 1] = ' ';
-         }
-         else
-            break;
-      }
-      for( int i { k - 2 }; i >= j + 1; i-- )
-      {
-         if( s[i] == '0' )
-         {
-            s[i] = ' ';
-            if( i == j + 1 )
-               s[j] = ' ';
-         }
-         else
-            break;
-      }
-   }
-
-   // only for short strings
-   j = 0;
-   std::array<char, 256> res {};
-   for( int i {}; i < static_cast<int>( s.length() ); i++ )
-   {
-      if( s[i] != ' ' )
-      {
-         j++;
-         res[j] = s[i];
-      }
-   }
-   return { res.data() };
+   return gdlib::strutilx::DblToStr( v );
 }
 
 double EncodeTime( const uint16_t hour, const uint16_t min, const uint16_t sec, const uint16_t msec )
-- 
2.43.0


From 3adc5c19d1d4163b59a9608cfaa48de57bea9243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:56 +0000
Subject: [PATCH 71/81] fix: short string functions return empty strings when
 the operation sets none

---
 generated/gdxcclib.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/generated/gdxcclib.cpp b/generated/gdxcclib.cpp
index f142be0..4e87d24 100644
--- a/generated/gdxcclib.cpp
+++ b/generated/gdxcclib.cpp
@@ -1516,6 +1516,8 @@ GDX_API int GDX_CALLCONV D__gdxAcronymGetInfo(TGXFileRec_t *TGXFile, int N, char
   char *AName_local;
   char Txt_sst[256];
   char *Txt_local;
+  AName_sst[0] = '\0';
+  Txt_sst[0] = '\0';
   gdxAcronymGetInfo_result = gdxAcronymGetInfo(TGXFile, N, AName_sst, Txt_sst, AIndx);
   AName_local = AName+1;
   memcpy(AName_local,AName_sst,mymin(strlen(AName_sst),255));
@@ -1532,6 +1534,7 @@ GDX_API int GDX_CALLCONV D__gdxAcronymName(TGXFileRec_t *TGXFile, double V, char
   int  gdxAcronymName_result;
   char AName_sst[256];
   char *AName_local;
+  AName_sst[0] = '\0';
   gdxAcronymName_result = gdxAcronymName(TGXFile, V, AName_sst);
   AName_local = AName+1;
   memcpy(AName_local,AName_sst,mymin(strlen(AName_sst),255));
@@ -1626,6 +1629,8 @@ GDX_API int GDX_CALLCONV D__gdxDataReadStr(TGXFileRec_t *TGXFile, char *KeyStr,
   gdxStrIndexPtrs_t KeyStr_pdim;
   GDXSTRINDEXPTRS_INIT(KeyStr_dim,KeyStr_pdim); /* assign pdim */
   KeyStr_sidim = gdxCurrentDim(TGXFile);
+  for(KeyStr_cnt=0;KeyStr_cnt<KeyStr_sidim;KeyStr_cnt++)
+    KeyStr_dim[KeyStr_cnt][0] = '\0';
   /*for(KeyStr_cnt=0;KeyStr_cnt<KeyStr_sidim;KeyStr_cnt++)
   {
     strncpy(KeyStr_pdim[KeyStr_cnt],(char *) KeyStr + KeyStr_cnt*256 + 1,(unsigned char) KeyStr[KeyStr_cnt*256]);
@@ -1651,6 +1656,8 @@ GDX_API int GDX_CALLCONV D__gdxDataSliceUELS(TGXFileRec_t *TGXFile, const int Sl
   gdxStrIndexPtrs_t KeyStr_pdim;
   GDXSTRINDEXPTRS_INIT(KeyStr_dim,KeyStr_pdim); /* assign pdim */
   KeyStr_sidim = gdxCurrentDim(TGXFile);
+  for(KeyStr_cnt=0;KeyStr_cnt<KeyStr_sidim;KeyStr_cnt++)
+    KeyStr_dim[KeyStr_cnt][0] = '\0';
   /*for(KeyStr_cnt=0;KeyStr_cnt<KeyStr_sidim;KeyStr_cnt++)
   {
     strncpy(KeyStr_pdim[KeyStr_cnt],(char *) KeyStr + KeyStr_cnt*256 + 1,(unsigned char) KeyStr[KeyStr_cnt*256]);
@@ -1747,6 +1754,7 @@ GDX_API int GDX_CALLCONV D__gdxGetDLLVersion(TGXFileRec_t *TGXFile, char *V)
   int  gdxGetDLLVersion_result;
   char V_sst[256];
   char *V_local;
+  V_sst[0] = '\0';
   gdxGetDLLVersion_result = gdxGetDLLVersion(TGXFile, V_sst);
   V_local = V+1;
   memcpy(V_local,V_sst,mymin(strlen(V_sst),255));
@@ -1760,6 +1768,7 @@ GDX_API int GDX_CALLCONV D__gdxErrorStr(TGXFileRec_t *TGXFile, int ErrNr, char *
   int  gdxErrorStr_result;
   char ErrMsg_sst[256];
   char *ErrMsg_local;
+  ErrMsg_sst[0] = '\0';
   gdxErrorStr_result = gdxErrorStr(TGXFile, ErrNr, ErrMsg_sst);
   ErrMsg_local = ErrMsg+1;
   memcpy(ErrMsg_local,ErrMsg_sst,mymin(strlen(ErrMsg_sst),255));
@@ -1775,6 +1784,8 @@ GDX_API int GDX_CALLCONV D__gdxFileVersion(TGXFileRec_t *TGXFile, char *FileStr,
   char *FileStr_local;
   char ProduceStr_sst[256];
   char *ProduceStr_local;
+  FileStr_sst[0] = '\0';
+  ProduceStr_sst[0] = '\0';
   gdxFileVersion_result = gdxFileVersion(TGXFile, FileStr_sst, ProduceStr_sst);
   FileStr_local = FileStr+1;
   memcpy(FileStr_local,FileStr_sst,mymin(strlen(FileStr_sst),255));
@@ -1802,6 +1813,7 @@ GDX_API int GDX_CALLCONV D__gdxGetElemText(TGXFileRec_t *TGXFile, int TxtNr, cha
   int  gdxGetElemText_result;
   char Txt_sst[256];
   char *Txt_local;
+  Txt_sst[0] = '\0';
   gdxGetElemText_result = gdxGetElemText(TGXFile, TxtNr, Txt_sst, Node);
   Txt_local = Txt+1;
   memcpy(Txt_local,Txt_sst,mymin(strlen(Txt_sst),255));
@@ -1815,6 +1827,7 @@ GDX_API int GDX_CALLCONV D__gdxGetUEL(TGXFileRec_t *TGXFile, int UelNr, char *Ue
   int  gdxGetUEL_result;
   char Uel_sst[256];
   char *Uel_local;
+  Uel_sst[0] = '\0';
   gdxGetUEL_result = gdxGetUEL(TGXFile, UelNr, Uel_sst);
   Uel_local = Uel+1;
   memcpy(Uel_local,Uel_sst,mymin(strlen(Uel_sst),255));
@@ -1914,6 +1927,7 @@ GDX_API int GDX_CALLCONV D__gdxSymbolGetComment(TGXFileRec_t *TGXFile, int SyNr,
   int  gdxSymbolGetComment_result;
   char Txt_sst[256];
   char *Txt_local;
+  Txt_sst[0] = '\0';
   gdxSymbolGetComment_result = gdxSymbolGetComment(TGXFile, SyNr, N, Txt_sst);
   Txt_local = Txt+1;
   memcpy(Txt_local,Txt_sst,mymin(strlen(Txt_sst),255));
@@ -1931,6 +1945,8 @@ GDX_API int GDX_CALLCONV D__gdxSymbolGetDomainX(TGXFileRec_t *TGXFile, int SyNr,
   gdxStrIndexPtrs_t DomainIDs_pdim;
   GDXSTRINDEXPTRS_INIT(DomainIDs_dim,DomainIDs_pdim); /* assign pdim */
   DomainIDs_sidim = gdxSymbolDim(TGXFile, SyNr);
+  for(DomainIDs_cnt=0;DomainIDs_cnt<DomainIDs_sidim;DomainIDs_cnt++)
+    DomainIDs_dim[DomainIDs_cnt][0] = '\0';
   /*for(DomainIDs_cnt=0;DomainIDs_cnt<DomainIDs_sidim;DomainIDs_cnt++)
   {
     strncpy(DomainIDs_pdim[DomainIDs_cnt],(char *) DomainIDs + DomainIDs_cnt*256 + 1,(unsigned char) DomainIDs[DomainIDs_cnt*256]);
@@ -1952,6 +1968,7 @@ GDX_API int GDX_CALLCONV D__gdxSymbolInfo(TGXFileRec_t *TGXFile, int SyNr, char
   int  gdxSymbolInfo_result;
   char SyId_sst[256];
   char *SyId_local;
+  SyId_sst[0] = '\0';
   gdxSymbolInfo_result = gdxSymbolInfo(TGXFile, SyNr, SyId_sst, Dimen, Typ);
   SyId_local = SyId+1;
   memcpy(SyId_local,SyId_sst,mymin(strlen(SyId_sst),255));
@@ -1965,6 +1982,7 @@ GDX_API int GDX_CALLCONV D__gdxSymbolInfoX(TGXFileRec_t *TGXFile, int SyNr, int
   int  gdxSymbolInfoX_result;
   char ExplTxt_sst[256];
   char *ExplTxt_local;
+  ExplTxt_sst[0] = '\0';
   gdxSymbolInfoX_result = gdxSymbolInfoX(TGXFile, SyNr, RecCnt, UserInfo, ExplTxt_sst);
   ExplTxt_local = ExplTxt+1;
   memcpy(ExplTxt_local,ExplTxt_sst,mymin(strlen(ExplTxt_sst),255));
@@ -2060,6 +2078,7 @@ GDX_API int GDX_CALLCONV D__gdxUMUelGet(TGXFileRec_t *TGXFile, int UelNr, char *
   int  gdxUMUelGet_result;
   char Uel_sst[256];
   char *Uel_local;
+  Uel_sst[0] = '\0';
   gdxUMUelGet_result = gdxUMUelGet(TGXFile, UelNr, Uel_sst, UelMap);
   Uel_local = Uel+1;
   memcpy(Uel_local,Uel_sst,mymin(strlen(Uel_sst),255));
-- 
2.43.0


From 5ea9e0e29f54769f74e387a32f499314349ae4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:59 +0000
Subject: [PATCH 72/81] fix: the load path is returned with its terminating
 null character

---
 generated/gdxcwrap.h            | 2 +-
 src/templates/cwrap.template.j2 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generated/gdxcwrap.h b/generated/gdxcwrap.h
index 7d1973f..b14fa7f 100644
--- a/generated/gdxcwrap.h
+++ b/generated/gdxcwrap.h
@@ -186,7 +186,7 @@ GDX_INLINE void GDX_CALLCONV doSetLoadPath( const char *s )
 GDX_INLINE void GDX_CALLCONV doGetLoadPath( char *s )
 {
    assert( gdx::DLLLoadPath.size() < 256 );
-   memcpy( s, gdx::DLLLoadPath.c_str(), gdx::DLLLoadPath.size() );
+   memcpy( s, gdx::DLLLoadPath.c_str(), gdx::DLLLoadPath.size() + 1 );
 }
 
 #ifndef NO_SET_LOAD_PATH_DEF
diff --git a/src/templates/cwrap.template.j2 b/src/templates/cwrap.template.j2
index 6f53d13..89be195 100644
--- a/src/templates/cwrap.template.j2
+++ b/src/templates/cwrap.template.j2
@@ -103,7 +103,7 @@ GDX_INLINE void GDX_CALLCONV doSetLoadPath( const char *s )
 GDX_INLINE void GDX_CALLCONV doGetLoadPath( char *s )
 {
    assert( gdx::DLLLoadPath.size() < 256 );
-   memcpy( s, gdx::DLLLoadPath.c_str(), gdx::DLLLoadPath.size() );
+   memcpy( s, gdx::DLLLoadPath.c_str(), gdx::DLLLoadPath.size() + 1 );
 }
 
 #ifndef NO_SET_LOAD_PATH_DEF
-- 
2.43.0


From 6b50efa1c6e84c45758918e6619bb0d0dedcf4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:12 +0000
Subject: [PATCH 73/81] fix: the call by reference callback of
 gdxGetDomainElements gets references

---
 src/gxfile.cpp | 5 +----
 src/gxfile.hpp | 2 +-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index bacce67..705ac55 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3781,10 +3781,7 @@ void TGXFileObj::gdxGetDomainElements_DP_FC( int RawIndex, int MappedIndex, void
    if( gdxGetDomainElements_DP_CallByRef )
    {
       const auto local_gdxGetDomainElements_DP { reinterpret_cast<TDomainIndexProc_F>( gdxGetDomainElements_DP ) };
-      uInt64 local_Uptr;
-      local_Uptr.i = 0;
-      local_Uptr.p = Uptr;
-      return local_gdxGetDomainElements_DP( RawIndex, MappedIndex, local_Uptr.i );
+      return local_gdxGetDomainElements_DP( &RawIndex, &MappedIndex, Uptr );
    }
    return gdxGetDomainElements_DP( RawIndex, MappedIndex, Uptr );
 }
diff --git a/src/gxfile.hpp b/src/gxfile.hpp
index 1e638bd..508b864 100644
--- a/src/gxfile.hpp
+++ b/src/gxfile.hpp
@@ -71,7 +71,7 @@ using TDataStoreExProc_t = int ( * )( const int *Indx, const double *Vals, const
 
 using TDataStoreExProc_F = int ( * )( const int *Indx, const double *Vals, const int afdim, int64_t Uptr );
 using TDataStoreFiltProc_F = int ( * )( const int *Indx, const double *Vals, int64_t Uptr );
-using TDomainIndexProc_F = void ( * )( int RawIndex, int MappedIndex, int64_t Uptr );
+using TDomainIndexProc_F = void ( * )( int *RawIndex, int *MappedIndex, void *Uptr );
 
 const std::array<int, GMS_DT_ALIAS + 1> DataTypSize { 1, 1, 5, 5, 0 };
 
-- 
2.43.0


From d05323bfef5e5596f43abe0e5b9fe5b7a2f628c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:18 +0000
Subject: [PATCH 74/81] fix: gdxdump: CSV columns for elements without a label

With CDim=Y the used columns were kept in an array of the size of the table of
unique elements, written outside of it for raw elements that have no label.
---
 src/tools/gdxdump/gdxdump.cpp | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index bf6ea12..ad3d44d 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -31,6 +31,7 @@
 #include <limits>
 #include <map>
 #include <memory>
+#include <set>
 #include <string_view>
 
 #include "gdlib/dblutil.hpp"
@@ -604,9 +605,9 @@ void WriteSymbolCSV(const int SyNr) {
   };
 
   library::ShortString SyName, S;
-  int iATyp, NRec, FDim, IDum, Col, ColCnt, NrSymb, NrUEL, HighIndex, Indx;
+  int iATyp, NRec, FDim, IDum, Col, ColCnt, NrSymb, NrUEL, Indx;
   gdxSyType ATyp;
-  std::unique_ptr<bool[]> CSVCols;
+  std::set<int> CSVCols;
   std::unique_ptr<int[]> CSVUels;
   gdxUelIndex_t Keys{};
   gdxValues_t Vals{};
@@ -695,31 +696,21 @@ void WriteSymbolCSV(const int SyNr) {
       fo << '\n';
     }
   } else {
-    CSVCols = std::make_unique<bool[]>(NrUEL);
-    // TODO: Check this, could be redundant
-    std::fill_n(CSVCols.get(), NrUEL, false);
-    HighIndex = 0;
-    ColCnt = 0;
+    // Indices may exceed the number of unique elements (no string representation)
     gdxDataReadRawStart(PGX, SyNr, &NRec);
     while (gdxDataReadRaw(PGX, Keys, Vals, &FDim) != 0) {
-      Indx = Keys[ADim - 1];
-      if (!CSVCols[Indx - 1]) {
-        CSVCols[Indx - 1] = true;
-        ColCnt++;
-        HighIndex = std::max(HighIndex, Indx);
-      }
+      CSVCols.insert(Keys[ADim - 1]);
     }
     gdxDataReadDone(PGX);
+    ColCnt = static_cast<int>(CSVCols.size());
 
     CSVUels = std::make_unique<int[]>(ColCnt);
     // TODO: Check this, could be redundant
     std::fill_n(CSVUels.get(), ColCnt, 0);
     Col = 0;
-    for (Indx = 0; Indx < HighIndex; Indx++) {
-      if (CSVCols[Indx]) {
-        CSVUels[Col] = Indx + 1;
-        Col++;
-      }
+    for (const int Uel : CSVCols) {
+      CSVUels[Col] = Uel;
+      Col++;
     }
     library::assertWithMessage(Col == ColCnt, "Col != ColCnt");
     if (bHeader) {
-- 
2.43.0


From 6bc211a881262a52da0dda97f926f7e0932d72ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:21 +0000
Subject: [PATCH 75/81] fix: gdxdiff reports an input that cannot be read

A mapped read stops with an error at a record whose element has no label (and at
damaged data); the records after it were taken as not there and files that
differ in them as equal.
---
 src/tools/gdxdiff/gdxdiff.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index edd0284..25632d3 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -122,6 +122,16 @@ void CheckGDXError(const gdxHandle_t &PGX) {
   }
 }
 
+// A read that failed is not the end of the data
+void CheckReadError(const gdxHandle_t &PGX, const library::ShortString &ID) {
+  const int ErrNr{gdxGetLastError(PGX)};
+  if (ErrNr != 0) {
+    library::ShortString S;
+    gdxErrorStr(PGX, ErrNr, S.data());
+    FatalError2("Problem reading symbol " + ID, S, static_cast<int>(ErrorCode::ERR_READGDX));
+  }
+}
+
 void OpenGDX(const std::string &fn, gdxHandle_t &PGX) {
   if (!rtl::sysutils_p3::FileExists(fn)) {
     FatalError("Input file not found " + fn, static_cast<int>(ErrorCode::ERR_NOFILE));
@@ -727,6 +737,9 @@ void CompareSy(const int Sy1, const int Sy2) {
     }
   }
 
+  CheckReadError(PGX1, ID);
+  CheckReadError(PGX2, ID);
+
   SymbClose();
 
 label999:
-- 
2.43.0


From c85cafcce70cf70cbd4575808f719288ed0fe38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:43 +0000
Subject: [PATCH 76/81] fix: gdxdiff reports a difference file that cannot be
 written

---
 src/tools/gdxdiff/gdxdiff.cpp | 23 +++++++++++++++--------
 src/tools/gdxdiff/gdxdiff.hpp |  2 +-
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index 25632d3..ace728e 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -113,12 +113,12 @@ void FatalError2(const std::string &Msg1, const std::string &Msg2, const int Err
   FatalErrorExit(ErrNr);
 }
 
-void CheckGDXError(const gdxHandle_t &PGX) {
-  int ErrNr{gdxGetLastError(PGX)};
+void CheckGDXError(const gdxHandle_t &PGX, const ErrorCode Code) {
+  const int ErrNr{gdxGetLastError(PGX)};
   if (ErrNr != 0) {
     library::ShortString S;
     gdxErrorStr(PGX, ErrNr, S.data());
-    library::printErrorMessage("GDXDIFF GDX Error: " + S);
+    FatalError("GDX Error: " + S, static_cast<int>(Code));
   }
 }
 
@@ -160,7 +160,7 @@ void OpenGDX(const std::string &fn, gdxHandle_t &PGX) {
     gdxUELRegisterMap(PGX, NN, UEL.data());
   }
   gdxUELRegisterDone(PGX);
-  CheckGDXError(PGX);
+  CheckGDXError(PGX, ErrorCode::ERR_READGDX);
 }
 
 void RegisterDiffUELs() {
@@ -176,7 +176,7 @@ void RegisterDiffUELs() {
     gdxUELRegisterStr(PGXDIF, UELTable->GetString(N), &d);
   }
   gdxUELRegisterDone(PGXDIF);
-  CheckGDXError(PGXDIF);
+  CheckGDXError(PGXDIF, ErrorCode::ERR_WRITEGDX);
 
   diffUELsRegistered = true;
 }
@@ -252,9 +252,9 @@ void CompareSy(const int Sy1, const int Sy2) {
   auto SymbClose = [&]() -> void {
     if (SymbOpen) {
       SymbOpen = false;
-      CheckGDXError(PGXDIF);
+      CheckGDXError(PGXDIF, ErrorCode::ERR_WRITEGDX);
       gdxDataWriteDone(PGXDIF);
-      CheckGDXError(PGXDIF);
+      CheckGDXError(PGXDIF, ErrorCode::ERR_WRITEGDX);
     }
   };
 
@@ -1186,7 +1186,14 @@ int main(const int argc, const char *argv[]) {
 
   // Note that input files are not closed at this point; so if we wrote
   // to an input file, the delete will fail and we keep the original input file alive
-  gdxClose(PGXDIF);
+  ErrNr = gdxGetLastError(PGXDIF);
+  if (ErrNr == 0) {
+    ErrNr = gdxClose(PGXDIF);
+  }
+  if (ErrNr != 0) {
+    gdxErrorStr(PGXDIF, ErrNr, S.data());
+    FatalError2("Cannot write file: " + DiffTmpName, S, static_cast<int>(ErrorCode::ERR_WRITEGDX));
+  }
   gdxFree(&PGXDIF);
 
   if (!rtl::sysutils_p3::FileExists(DiffFileName)) {
diff --git a/src/tools/gdxdiff/gdxdiff.hpp b/src/tools/gdxdiff/gdxdiff.hpp
index f26edbe..5369372 100644
--- a/src/tools/gdxdiff/gdxdiff.hpp
+++ b/src/tools/gdxdiff/gdxdiff.hpp
@@ -98,7 +98,7 @@ void FatalError(const std::string &Msg, int ErrNr);
 
 void FatalError2(const std::string &Msg1, const std::string &Msg2, int ErrNr);
 
-void CheckGDXError(const gdxHandle_t &PGX);
+void CheckGDXError(const gdxHandle_t &PGX, ErrorCode Code);
 
 void OpenGDX(const std::string &fn, gdxHandle_t &PGX);
 
-- 
2.43.0


From 564310ebdeea68872cf8564ebf9730eb6234ab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:49 +0000
Subject: [PATCH 77/81] fix: gdxdump reports incomplete reading and writing

---
 src/tools/gdxdump/gdxdump.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index ad3d44d..47e8ed0 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -1477,8 +1477,19 @@ int main(const int argc, const char *argv[]) {
   }
 
 AllDone:
+  // A read that failed is not the end of the data
+  ErrNr = gdxGetLastError(PGX);
+  if (ErrNr != 0) {
+    gdxErrorStr(PGX, ErrNr, s.data());
+    library::printErrorMessage("Problem reading GDX file: " + s);
+    ExitCode = 5;
+  }
   gdxClose(PGX);
   gdxFree(&PGX);
+  if (!fo.flush()) {
+    library::printErrorMessage("Error writing output" + (OutputName.empty() ? "" : " file: " + OutputName));
+    ExitCode = 6;
+  }
   // The output file is complete, what follows is written to the console
   fo.rdbuf(consoleBuffer);
 
-- 
2.43.0


From 396fb3c5c5fe0b4d01082e4a54e1f2a37dbe9c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:55 +0000
Subject: [PATCH 78/81] fix: gdxdump: CSV with cDim ends for records out of
 order

---
 src/tools/gdxdump/gdxdump.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 47e8ed0..d213f56 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -741,6 +741,14 @@ void WriteSymbolCSV(const int SyNr) {
       Col = -1;
       do {
         Indx = Keys[ADim - 1];
+        // Records of a damaged file may be out of order
+        if (Col >= 0 && Indx <= CSVUels[Col]) {
+          while (Col < ColCnt - 1) {
+            fo << Delim;
+            Col++;
+          }
+          break;
+        }
         while (Col < ColCnt) {
           Col++;
           if (CSVUels[Col] >= Indx) {
-- 
2.43.0


From 34f0a9a17d2a16c1f6871fad467e3215881e5c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:01 +0000
Subject: [PATCH 79/81] fix: gdxmerge: search for the name of an acronym
 without a name ends

---
 src/tools/gdxmerge/gdxmerge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 9caa2ce..c73d3e0 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -560,7 +560,7 @@ void SymbolList::KeepNewAcronyms(const gdxHandle_t &PGX) {
         // Should not happen
         for (int K{1}; K <= std::numeric_limits<int>::max(); K++) {
           AName = "Acronym_Auto_" + std::to_string(K);
-          if (FindAcronym(AName) < 0) {
+          if (FindAcronym(AName) == 0) {
             break;
           }
         }
-- 
2.43.0


From 5f06eb03d9d6d11c1fe26f53098b5a7b780cc1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:17 +0000
Subject: [PATCH 80/81] fix: gdxmerge reports incomplete reading and writing

---
 src/tools/gdxmerge/gdxmerge.cpp | 36 +++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index c73d3e0..d9769bb 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -40,7 +40,7 @@
 
 namespace gdxmerge {
 
-bool DoBigSymbols, StrictMode;
+bool DoBigSymbols, StrictMode, ReadError;
 std::int64_t SizeCutOff;
 library::ShortString OutFile;
 std::unique_ptr<gdlib::gmsobj::TXStrings> FilePatterns;
@@ -192,6 +192,7 @@ bool SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
   gdxUELRegisterStrStart(PGXMerge);
   gdxSystemInfo(PGX, &NrSy, &NrUel);
   FrstError = true;
+  bool Result{true};
 
   for (N = 1; N <= NrSy; N++) {
     gdxSymbolInfo(PGX, N, SyName.data(), &Dim, &SyITyp);
@@ -289,6 +290,10 @@ bool SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
       SyObj->SyData->AddRecord(IndxI, Vals);
     }
     gdxDataReadDone(PGX);
+    // A read that failed is not the end of the data
+    if (CheckError(gdxGetLastError(PGX) == 0, "Error reading data")) {
+      Result = false;
+    }
   }
 
   KeepNewAcronyms(PGX);
@@ -296,7 +301,7 @@ bool SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
   gdxFree(&PGX);
 
   gdxUELRegisterDone(PGXMerge);
-  return true;
+  return Result;
 }
 
 bool SymbolList::CollectBigOne(const int SyNr) {
@@ -346,6 +351,7 @@ bool SymbolList::CollectBigOne(const int SyNr) {
       gdxErrorStr(PGX, ErrNr, ErrMsg.data());
       library::printErrorMessage("Error reading file, message: " + ErrMsg);
       gdxFree(&PGX);
+      ReadError = true;
       continue;
     }
 
@@ -387,6 +393,9 @@ bool SymbolList::CollectBigOne(const int SyNr) {
         SyObj->SyData->AddRecord(IndxI, Vals);
       }
       gdxDataReadDone(PGX);
+      if (CheckError(gdxGetLastError(PGX) == 0, "Error reading data")) {
+        ReadError = true;
+      }
     }
 
     KeepNewAcronyms(PGX);
@@ -839,6 +848,7 @@ int main(const int argc, const char *argv[]) {
   FilePatterns->Clear();
 
   InputFilesRead = 0;
+  ReadError = false;
   if (!DoBigSymbols) {
     for (N = 0; N < SyList->GetFileListSize(); N++) {
       if (!SyList->AddPGXFile(N, ProcessPass::RpDoAll) && StrictMode) {
@@ -859,7 +869,10 @@ int main(const int argc, const char *argv[]) {
     }
 
     for (N = 0; N < SyList->GetFileListSize(); N++) {
-      SyList->AddPGXFile(N, ProcessPass::RpSmall);
+      if (!SyList->AddPGXFile(N, ProcessPass::RpSmall) && StrictMode) {
+        library::printErrorMessage("*** Error  : Cannot read input file (strict mode)");
+        return 1;
+      }
     }
 
     for (N = 0; N < SyList->size(); N++) {
@@ -871,11 +884,26 @@ int main(const int argc, const char *argv[]) {
         SyList->WritePGXFile(N, ProcessPass::RpBig);
       }
     }
+
+    if (ReadError && StrictMode) {
+      library::printErrorMessage("*** Error  : Cannot read input file (strict mode)");
+      return 1;
+    }
   }
 
   SyList->WriteNameList();
 
-  gdxClose(PGXMerge);
+  ErrNr = gdxGetLastError(PGXMerge);
+  const int CloseErrNr{gdxClose(PGXMerge)};
+  if (ErrNr == 0) {
+    ErrNr = CloseErrNr;
+  }
+  if (ErrNr != 0) {
+    library::printErrorMessage("*** Error  : Cannot write to output file, Error Nr = " + std::to_string(ErrNr));
+    gdxErrorStr(PGXMerge, ErrNr, Msg.data());
+    library::printErrorMessage("*** Message: " + Msg);
+    return 1;
+  }
   gdxFree(&PGXMerge);
 
   std::cout << '\n';
-- 
2.43.0


From 17b6ebf17929172a869123eb741e920cb8e30f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:28 +0000
Subject: [PATCH 81/81] fix: quote file names for the converter so that the
 shell does not interpret them

---
 src/gxfile.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 705ac55..16a7e30 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -297,6 +297,22 @@ static int SystemP( const std::string &cmd, int &ProgRC )
    return res;
 }
 
+// File name as a single argument of a command
+static std::string QuoteFileName( const std::string &fn )
+{
+#if defined( _WIN32 )
+   return quoteWhitespace( fn, '\"' );
+#else
+   // the shell must not interpret anything in the name
+   std::string res { "'" };
+   for( const char c: fn )
+      if( c == '\'' ) res += R"('\'')";
+      else
+         res += c;
+   return res + "'";
+#endif
+}
+
 int ConvertGDXFile( const std::string &fn, const std::string &MyComp )
 {
    std::string Conv { trim( uppercase( QueryEnvironmentVariable( strGDXCONVERT ) ) ) };
@@ -304,7 +320,7 @@ int ConvertGDXFile( const std::string &fn, const std::string &MyComp )
    const std::string Comp = Conv == "V5" ? ""s : ( !GetEnvCompressFlag() ? "U" : "C" );
    if( sameText( Conv + Comp, "V7"s + MyComp ) ) return 0;
    int progRC;
-   const int res { SystemP( "gdxcopy -"s + Conv + Comp + " -Replace "s + quoteWhitespace( fn, '\"' ), progRC ) };
+   const int res { SystemP( "gdxcopy -"s + Conv + Comp + " -Replace "s + QuoteFileName( fn ), progRC ) };
    return progRC ? ERR_GDXCOPY - progRC : res;
 }
 
-- 
2.43.0

