// P23, second translation unit: the C++ class over the dynamically loaded C interface
#include <dlfcn.h>
#include <stdexcept>
#define TGXFileObj WrapObj
#include "gdxcppwrap.hpp"
#undef TGXFileObj
#include "../lib/apiops.hpp"

extern "C" void *verif_dlopen( const char *, int ) { return dlopen( nullptr, RTLD_NOW ); }
extern "C" int verif_dlclose( void * ) { return 0; }

namespace p23
{
void *wrapCreate()
{
   std::string msg;
   return new gdx::WrapObj( msg );
}
void wrapDestroy( void *o ) { delete (gdx::WrapObj *) o; }
Res wrapCall( int op, void *o, const std::vector<Val> &in )
{
   auto *p = (gdx::WrapObj *) o;
   int i = 0;
#define M( name ) \
   if( op == i++ ) return onObject( &gdx::WrapObj::name, p, in, 0 );
#include "../lib/apilist.hpp"
#undef M
   return {};
}
static char buf[256];
const char *loaderCall( int op, void **h )
{
   static std::string r;
   buf[0] = 0;
   int rc = -1;
   switch( op )
   {
      case 0: rc = gdxCreate( (gdxHandle_t *) h, buf, sizeof buf ); break;
      case 1: rc = gdxCreateD( (gdxHandle_t *) h, "/dir", buf, sizeof buf ); break;
      case 2: rc = gdxCreateDD( (gdxHandle_t *) h, "/dir", buf, sizeof buf ); break;
      case 3: rc = gdxCreateL( (gdxHandle_t *) h, "/dir/lib.so", buf, sizeof buf ); break;
      case 4: rc = gdxFree( (gdxHandle_t *) h ); break;
      case 5: rc = gdxLibraryLoaded(); break;
      case 6: rc = gdxLibraryUnload(); break;
      case 7: rc = gdxGetReady( buf, sizeof buf ); break;
      case 8: rc = gdxCorrectLibraryVersion( buf, sizeof buf ); break;
   }
   r = std::to_string( rc );
   return r.c_str();
}
}// namespace p23
