// P24: gdxdump reports the content of the file.
// Every file and option combination within the bounds is written with the library, dumped by the tool, and the
// dump is parsed by an independent reader of the output format; the result must be the content that was written.
#include "toolh.hpp"
using namespace th;

using Item = std::pair<vector<string>, int>;// key, field (0..4)
static const char *FLD[] = { "L", "M", "LO", "UP", "SCALE" };

struct Opts
{
   char delim = '.', dec = '.';
   int dfmt = 0;// 0 normal, 1 hexponential, 2 hexBytes
   bool filter = true;
   string eps = "Eps", na = "NA", pinf = "+Inf", minf = "-Inf", und = "Undf", zero = "0";
   vector<std::pair<string, string>> acr;
};

// the normal format shows 15 significant digits, the hexadecimal ones are exact
static bool sameVal( double shown, double stored, const Opts &o )
{
   if( o.dfmt == 0 ) stored = strtod( fmt( "%.14e", stored ).c_str(), nullptr );
   return bits( shown + 0.0 ) == bits( stored + 0.0 );
}
// value of a printed number
static bool parseVal( const string &s, const Opts &o, double &v )
{
   if( s == o.eps ) return v = EPS, true;
   if( s == o.na ) return v = NA, true;
   if( s == o.pinf ) return v = PINF, true;
   if( s == o.minf ) return v = MINF, true;
   if( s == o.und ) return v = UND, true;
   if( s == o.zero ) return v = 0, true;
   for( size_t i = 0; i < o.acr.size(); i++ )
      if( s == o.acr[i].first ) return v = ( (double) i + 1 ) * 1e301, true;
   if( o.dfmt == 2 )
   {
      if( s.size() != 18 || s.compare( 0, 2, "0x" ) ) return false;
      uint64_t u = 0;
      for( size_t i = 2; i < 18; i++ )
      {
         int d = isdigit( (unsigned char) s[i] ) ? s[i] - '0' : s[i] >= 'a' && s[i] <= 'f' ? s[i] - 'a' + 10 : -1;
         if( d < 0 ) return false;
         u = u * 16 + (uint64_t) d;
      }
      return v = fromBits( u ), true;
   }
   string t = s;
   if( t.empty() ) return false;
   for( auto ch: t )
      if( !( isdigit( (unsigned char) ch ) || strchr( o.dfmt ? "+-.xpabcdef" : "+-eE", ch ) || ch == o.dec ) ) return false;
   if( !o.dfmt )
      for( auto &ch: t )
         if( ch == o.dec ) ch = '.';
   char *e;
   v = strtod( t.c_str(), &e );
   return !*e;
}

struct Parsed
{
   string head, name, text, dom, target;
   bool hasDom {}, hasData {}, load {}, empty {};
   vector<string> comments;
   vector<std::pair<vector<string>, string>> set;
   std::map<Item, double> vals;
   vector<Item> order;
};

struct Reader
{
   Ctx &c;
   const string &s;
   const Opts &o;
   size_t p = 0;
   Reader( Ctx &c, const string &s, const Opts &o ) : c( c ), s( s ), o( o ) {}
   [[noreturn]] void bad( const char *what ) { c.fail( "unreadable", fmt( "%s at offset %zu: <%s>", what, p, s.substr( p > 60 ? p - 60 : 0, 160 ).c_str() ) ); }
   bool at( const char *t ) const { return s.compare( p, strlen( t ), t ) == 0; }
   bool eat( const char *t )
   {
      if( !at( t ) ) return false;
      p += strlen( t );
      return true;
   }
   void need( const char *t )
   {
      if( !eat( t ) ) bad( fmt( "expected <%s>", t ).c_str() );
   }
   bool end() const { return p >= s.size(); }
   void skipWs()
   {
      while( !end() && ( s[p] == ' ' || s[p] == '\n' ) ) p++;
   }
   string line()
   {
      auto e = s.find( '\n', p );
      if( e == string::npos ) bad( "unfinished line" );
      string r = s.substr( p, e - p );
      p = e + 1;
      return r;
   }
   string quoted()
   {
      char q = end() ? 0 : s[p];
      if( q != '\'' && q != '"' ) bad( "expected a quoted label" );
      auto e = s.find( q, p + 1 );
      if( e == string::npos ) bad( "unterminated quote" );
      string r = s.substr( p + 1, e - p - 1 );
      p = e + 1;
      return r;
   }
   string word()
   {
      size_t b = p;
      while( !end() && s[p] != ' ' && s[p] != '\n' ) p++;
      if( p == b ) bad( "expected a word" );
      return s.substr( b, p - b );
   }
   string ident()
   {
      size_t b = p;
      while( !end() && ( isalnum( (unsigned char) s[p] ) || s[p] == '_' ) ) p++;
      if( p == b ) bad( "expected an identifier" );
      return s.substr( b, p - b );
   }
   // text up to the data or the end of the statement
   string freeText()
   {
      if( s[p] == '\'' || s[p] == '"' ) return quoted();
      size_t b = p;
      while( !end() && s[p] != '/' && s[p] != ';' && s[p] != ',' && s[p] != '\n' ) p++;
      size_t e = p;
      while( e > b && s[e - 1] == ' ' ) e--;
      p = e;
      if( s.substr( b, e - b ).find( ".." ) != string::npos ) bad( "dots in a text without quotes" );
      return s.substr( b, e - b );
   }
   vector<string> labels( int dim )
   {
      vector<string> k;
      for( int d = 0; d < dim; d++ )
      {
         if( d )
         {
            if( end() || s[p] != o.delim ) bad( "expected the delimiter" );
            p++;
         }
         k.push_back( quoted() );
      }
      return k;
   }
   double value()
   {
      string w = word();
      if( !w.empty() && w.back() == ',' )
      {
         w.pop_back();
         p--;
      }
      double v = 0;
      if( !parseVal( w, o, v ) ) bad( fmt( "<%s> is not a value", w.c_str() ).c_str() );
      return v;
   }
   void readComments( Parsed &r )
   {
      while( at( "* " ) && ( p == 0 || s[p - 1] == '\n' ) )
      {
         p += 2;
         r.comments.push_back( line() );
      }
   }
   // items of a symbol up to the closing " /;" (or the end of the text without header)
   void items( Parsed &r, const TSym &y, bool header )
   {
      bool first = true;
      while( true )
      {
         skipWs();
         if( header ? at( "/;" ) : end() ) break;
         if( !first )
         {
            need( "," );
            skipWs();
         }
         first = false;
         vector<string> k = labels( y.dim );
         if( y.type == T_SET )
         {
            string t;
            if( at( " " ) && !at( " /;" ) && !( !header && s.find_first_not_of( " \n", p ) == string::npos ) )
            {
               p++;
               if( s[p] == '\'' || s[p] == '"' ) t = quoted();
               else
               {
                  size_t b = p;
                  while( !end() && !strchr( " ,/\n;", s[p] ) ) p++;
                  t = s.substr( b, p - b );
                  if( t.find( ".." ) != string::npos ) bad( "dots in a text without quotes" );
               }
            }
            r.set.push_back( { k, t } );
            continue;
         }
         int f = 0;
         if( y.type != T_PAR )
         {
            if( y.dim )
            {
               if( s[p] != o.delim ) bad( "expected the delimiter before the field" );
               p++;
            }
            string w = ident();
            while( f < 5 && w != FLD[f] ) f++;
            if( f == 5 ) bad( "unknown field" );
         }
         while( at( " " ) ) p++;
         double v = value();
         if( !r.vals.emplace( Item { k, f }, v ).second ) bad( "the same field twice" );
         r.order.push_back( { k, f } );
      }
   }
};

static string showItems( const std::map<Item, double> &m )
{
   string s;
   for( auto &[k, v]: m )
   {
      for( auto &l: k.first ) s += "<" + l + ">";
      s += fmt( ".%s=%.17g ", FLD[k.second], v );
   }
   return s;
}
static std::map<Item, double> expected( const TSym &y, bool filter, bool bas = false )
{
   std::map<Item, double> m;
   Vals d {};
   if( y.type == T_VAR ) d = defVar( y.user );
   if( y.type == T_EQU ) d = defEqu( y.user );
   bool scalar = y.dim == 0 && y.type == T_PAR;
   auto recs = y.recs;
   if( recs.empty() && y.dim == 0 && y.type != T_SET )
   {
      TRec r;
      r.v = d;
      recs.push_back( r );
   }
   for( auto &r: recs )
      for( int f = 0; f < nvals( y.type ); f++ )
      {
         if( bas && ( f > 1 || ( y.type == T_EQU && f != 1 ) ) ) continue;
         bool bound = y.type == T_EQU && ( f == 2 || f == 3 );
         if( filter && !scalar && !bound && r.v[(size_t) f] == d[(size_t) f] ) continue;
         m[{ r.k, f }] = r.v[(size_t) f];
      }
   return m;
}
static void compareData( Ctx &c, const Parsed &r, const TSym &y, bool filter, const Opts &o )
{
   if( y.type == T_SET )
   {
      std::map<vector<string>, string> a, b;
      for( auto &x: y.recs ) a[x.k] = x.txt;
      for( auto &x: r.set ) CK( b.emplace( x.first, x.second ).second, "duplicate", "set %s lists an element twice", y.name.c_str() );
      for( auto &[k, t]: a )
      {
         CK( b.count( k ), "missing", "set %s: element <%s>... is missing", y.name.c_str(), k.empty() ? "" : k[0].c_str() );
         CK( b[k] == t, "text", "set %s: element <%s> has text <%s>, expected <%s>", y.name.c_str(), k[0].c_str(), b[k].c_str(), t.c_str() );
      }
      CK( a.size() == b.size(), "extra", "set %s lists %zu elements instead of %zu", y.name.c_str(), b.size(), a.size() );
      return;
   }
   auto e = expected( y, filter );
   CK( r.vals.size() == e.size(), "data", "%s: dump shows %s instead of %s", y.name.c_str(), showItems( r.vals ).c_str(), showItems( e ).c_str() );
   for( auto &[k, v]: e )
   {
      auto it = r.vals.find( k );
      CK( it != r.vals.end() && sameVal( it->second, v, o ), "data", "%s: dump shows %s instead of %s", y.name.c_str(), showItems( r.vals ).c_str(), showItems( e ).c_str() );
   }
}

static string trim( string s )
{
   while( !s.empty() && s.back() == ' ' ) s.pop_back();
   return s;
}
static string headWord( const TSym &y )
{
   static const char *vt[] = { "", "binary", "integer", "positive", "negative", "free", "sos1", "sos2", "semicont", "semiint" };
   if( y.type == T_SET ) return y.user == 1 ? "Singleton Set" : "Set";
   if( y.type == T_PAR ) return y.dim ? "Parameter" : "Scalar";
   if( y.type == T_VAR ) return y.user ? string( vt[y.user] ) + " Variable" : "Variable";
   if( y.type == T_EQU ) return y.user == 59 ? "Logic Equation" : "Equation";
   return "Alias";
}
static string squeeze( const string &s )
{
   string r;
   for( auto ch: s )
      if( !( ch == ' ' && !r.empty() && r.back() == ' ' ) ) r += ch;
   return r;
}

// complete listing (or one symbol with header)
static void readSymbol( Ctx &c, Reader &rd, const TFile &f, const TSym &y, bool data )
{
   Parsed r;
   rd.skipWs();
   // words up to the name
   string want = headWord( y );
   size_t b = rd.p;
   for( size_t i = 0; i < (size_t) std::count( want.begin(), want.end(), ' ' ) + 1; i++ )
   {
      while( rd.at( " " ) ) rd.p++;
      rd.word();
   }
   r.head = squeeze( rd.s.substr( b, rd.p - b ) );
   CK( r.head == want, "header", "symbol %s is announced as <%s> instead of <%s>", y.name.c_str(), r.head.c_str(), want.c_str() );
   while( rd.at( " " ) ) rd.p++;
   if( y.type == T_ALIAS )
   {
      string l = rd.line(), w = "(" + y.name + ", " + ( y.aliasOf ? f.syms[(size_t) y.aliasOf - 1].name : "*" ) + ");";
      CK( l == w, "alias", "alias %s is shown as <%s>", y.name.c_str(), l.c_str() );
      return;
   }
   string n = rd.ident();
   CK( n == y.name, "name", "symbol %s is shown as %s", y.name.c_str(), n.c_str() );
   if( y.dim )
   {
      rd.need( "(" );
      for( int d = 0; d < y.dim; d++ )
      {
         if( d ) rd.need( "," );
         size_t b2 = rd.p;
         while( !rd.end() && !strchr( ",)", rd.s[rd.p] ) ) rd.p++;
         string w = y.dom.empty() || !y.strict ? "*" : y.dom[(size_t) d];
         CK( rd.s.substr( b2, rd.p - b2 ) == w, "domain", "dimension %d of %s is shown over %s", d + 1, y.name.c_str(), rd.s.substr( b2, rd.p - b2 ).c_str() );
      }
      rd.need( ")" );
   }
   if( rd.at( " " ) && !rd.at( " /" ) && !rd.at( " ;" ) )
   {
      rd.p++;
      r.text = rd.freeText();
   }
   CK( r.text == trim( y.text ) || r.text == y.text, "symbol-text", "text of %s is shown as <%s> instead of <%s>", y.name.c_str(), r.text.c_str(), y.text.c_str() );
   if( data )
   {
      while( rd.at( " " ) ) rd.p++;
      rd.need( "/" );
      while( rd.at( " " ) ) rd.p++;
      rd.eat( "\n" );
      rd.readComments( r );
      rd.items( r, y, true );
      rd.need( "/;" );
      rd.need( "\n" );
      rd.readComments( r );
      compareData( c, r, y, rd.o.filter, rd.o );
   }
   else
   {
      rd.eat( "\n" );
      rd.readComments( r );
      while( rd.at( " " ) ) rd.p++;
      rd.need( ";" );
      string l = rd.line();
      bool em = l.find( "!!empty" ) != string::npos;
      CK( em == ( y.recs.empty() && y.dim > 0 ) || ( y.recs.empty() && y.dim == 0 ), "empty-mark", "symbol %s with %zu records: <%s>", y.name.c_str(), y.recs.size(), l.c_str() );
      l = rd.line();
      CK( l == "$loadDC " + y.name + ( em ? " !!empty" : "" ), "load", "symbol %s is loaded with <%s>", y.name.c_str(), l.c_str() );
   }
   CK( r.comments == y.comments, "comments", "symbol %s: %zu comments shown, %zu expected, last <%s>", y.name.c_str(), r.comments.size(), y.comments.size(), r.comments.empty() ? "" : r.comments.back().c_str() );
}

static void readAcronyms( Ctx &c, Reader &rd, const TFile &f )
{
   if( f.acr.empty() ) return;
   rd.skipWs();
   for( auto &a: f.acr )
   {
      rd.need( "Acronym " );
      string n = rd.ident(), t;
      if( rd.eat( " " ) ) t = rd.freeText();
      rd.need( ";\n" );
      CK( n == a.first && t == a.second, "acronym", "acronym %s <%s> is shown as %s <%s>", a.first.c_str(), a.second.c_str(), n.c_str(), t.c_str() );
   }
}

static void checkFull( Ctx &c, const TFile &f, const string &out, const Opts &o, bool data, const string &file )
{
   Reader rd( c, out, o );
   if( !data )
   {
      rd.skipWs();
      rd.need( "$gdxIn " );
      string l = rd.line();
      CK( l == file, "gdxin", "$gdxIn names %s", l.c_str() );
   }
   readAcronyms( c, rd, f );
   rd.skipWs();
   rd.need( "$onEmpty\n" );
   if( !data )
   {
      rd.need( "$offEolCom\n" );
      rd.need( "$eolCom !!\n" );
   }
   for( auto &y: f.syms ) readSymbol( c, rd, f, y, data );
   rd.skipWs();
   rd.need( "$offEmpty\n" );
   CK( rd.end(), "trailing", "unexpected output at the end <%s>", out.substr( rd.p, 80 ).c_str() );
}

// ------------------------------------------------------------------ CSV
struct Csv
{
   vector<vector<string>> rows;
   vector<vector<bool>> q;
};
static Csv readCsv( Ctx &c, const string &s, char delim )
{
   Csv r;
   size_t p = 0;
   while( p < s.size() )
   {
      vector<string> row;
      vector<bool> qq;
      while( true )
      {
         string f;
         bool quoted = false;
         if( delim != '\t' && p < s.size() && s[p] == '"' )
         {
            quoted = true;
            p++;
            while( true )
            {
               CK( p < s.size(), "csv", "unterminated quote in <%s>", s.c_str() );
               if( s[p] == '"' )
               {
                  if( p + 1 < s.size() && s[p + 1] == '"' )
                  {
                     f += '"';
                     p += 2;
                     continue;
                  }
                  p++;
                  break;
               }
               f += s[p++];
            }
         }
         else
            while( p < s.size() && s[p] != delim && s[p] != '\n' ) f += s[p++];
         row.push_back( f );
         qq.push_back( quoted );
         CK( p < s.size(), "csv", "last line is not terminated: <%s>", s.c_str() );
         if( s[p] == '\n' )
         {
            p++;
            break;
         }
         CK( s[p] == delim, "csv", "junk after a field in <%s>", s.c_str() );
         p++;
      }
      r.rows.push_back( row );
      r.q.push_back( qq );
   }
   return r;
}

struct CsvOpt
{
   bool cdim {}, all {}, settext {}, nohdr {};
   string header;
   bool hasHeader {};
};
static string joinRow( const vector<string> &v )
{
   string s;
   for( auto &x: v ) s += "<" + x + ">";
   return s;
}
static void checkCsv( Ctx &c, const TFile &f, const TSym &y0, const string &out, const Opts &o, const CsvOpt &co )
{
   const TSym &y = y0.type == T_ALIAS ? f.syms[(size_t) y0.aliasOf - 1] : y0;
   string body = out;
   if( co.hasHeader && !co.header.empty() )
   {
      CK( out.compare( 0, co.header.size() + 1, co.header + "\n" ) == 0, "csv-header", "the given header is not the first line of <%s>", out.c_str() );
      body = out.substr( co.header.size() + 1 );
   }
   Csv t = readCsv( c, body, o.delim );
   vector<string> head;
   bool haveHead = !co.hasHeader && !co.nohdr;
   if( haveHead )
   {
      CK( !t.rows.empty(), "csv-header", "no header line" );
      head = t.rows[0];
      t.rows.erase( t.rows.begin() );
   }
   auto recs = y.recs;
   if( recs.empty() && y.dim == 0 && y.type != T_SET )
   {
      TRec r;
      r.v = y.type == T_VAR ? defVar( y.user ) : y.type == T_EQU ? defEqu( y.user ) : Vals {};
      recs.push_back( r );
   }
   bool isSet = y.type == T_SET, full = co.all && ( y.type == T_VAR || y.type == T_EQU );
   size_t D = (size_t) y.dim;
   bool cd = co.cdim && y.dim >= 2;
   if( haveHead )
   {
      size_t nd = cd ? D - 1 : D;
      CK( head.size() >= nd, "csv-header", "header %s", joinRow( head ).c_str() );
      std::set<string> seen;
      for( size_t d = 0; d < nd; d++ )
      {
         string base = y0.type == T_ALIAS || y.dom.empty() || y.dom[d] == "*" ? "Dim" + std::to_string( d + 1 ) : y.dom[d];
         if( y0.type != T_ALIAS ) CK( head[d] == base || ( head[d].compare( 0, base.size() + 1, base + "_" ) == 0 ), "csv-header", "column %zu is named %s for domain %s", d + 1, head[d].c_str(), base.c_str() );
         CK( seen.insert( head[d] ).second, "csv-header", "two columns are named %s", head[d].c_str() );
      }
      if( !cd )
      {
         vector<string> w( head.begin(), head.begin() + (long) nd );
         if( !isSet ) w.push_back( "Val" );
         else if( co.settext )
            w.push_back( "Text" );
         if( full )
            for( auto x: { "Marginal", "Lower", "Upper", "Scale" } ) w.push_back( x );
         CK( head == w, "csv-header", "header is %s, expected %s", joinRow( head ).c_str(), joinRow( w ).c_str() );
      }
   }
   std::map<vector<string>, vector<string>> got;
   if( !cd )
   {
      size_t w = D + ( isSet ? ( co.settext ? 1 : 0 ) : full ? 5 : 1 );
      for( auto &r: t.rows )
      {
         CK( r.size() == w, "csv-row", "row %s has %zu fields, expected %zu", joinRow( r ).c_str(), r.size(), w );
         CK( got.emplace( vector<string>( r.begin(), r.begin() + (long) D ), vector<string>( r.begin() + (long) D, r.end() ) ).second, "duplicate", "row %s appears twice", joinRow( r ).c_str() );
      }
   }
   else
   {
      // columns: the labels used in the last dimension; without header in the order of their numbers
      vector<string> cols;
      if( haveHead ) cols.assign( head.begin() + (long) D - 1, head.end() );
      else
      {
         std::set<string> used;
         for( auto &r: recs ) used.insert( r.k.back() );
         // numbers are given in order of registration: f.uels lists all labels
         for( auto &u: f.uels )
            if( used.count( u ) ) cols.push_back( u );
      }
      if( recs.empty() ) cols.clear();
      std::set<string> cs( cols.begin(), cols.end() ), used;
      for( auto &r: recs ) used.insert( r.k.back() );
      CK( cs == used && cs.size() == cols.size(), "csv-columns", "the columns are %s", joinRow( cols ).c_str() );
      std::set<vector<string>> rowKeys;
      for( auto &r: t.rows )
      {
         CK( r.size() == D - 1 + cols.size(), "csv-row", "row %s has %zu fields, expected %zu", joinRow( r ).c_str(), r.size(), D - 1 + cols.size() );
         vector<string> k( r.begin(), r.begin() + (long) D - 1 );
         CK( rowKeys.insert( k ).second, "duplicate", "row %s appears twice", joinRow( r ).c_str() );
         for( size_t i = 0; i < cols.size(); i++ )
            if( !r[D - 1 + i].empty() )
            {
               auto kk = k;
               kk.push_back( cols[i] );
               got[kk] = { r[D - 1 + i] };
            }
      }
   }
   CK( got.size() == recs.size(), "csv-count", "%zu records are listed, expected %zu: <%s>", got.size(), recs.size(), out.c_str() );
   for( auto &r: recs )
   {
      auto it = got.find( r.k );
      CK( it != got.end(), "missing", "record <%s>... is missing in <%s>", r.k.empty() ? "" : r.k[0].c_str(), out.c_str() );
      auto &v = it->second;
      if( isSet )
      {
         if( cd ) CK( v[0] == "Y", "csv-set", "cell is %s", v[0].c_str() );
         else if( co.settext )
            CK( v[0] == r.txt, "text", "text is <%s>, expected <%s>", v[0].c_str(), r.txt.c_str() );
         continue;
      }
      for( size_t i = 0; i < v.size(); i++ )
      {
         double x = 0;
         CK( parseVal( v[i], o, x ) && sameVal( x, r.v[i], o ), "value", "field %zu of <%s> is shown as <%s>, stored %.17g", i, r.k.empty() ? "" : r.k[0].c_str(), v[i].c_str(), r.v[i] );
      }
   }
}

// ------------------------------------------------------------------ scenarios
static const vector<string> &labelPalette()
{
   static const vector<string> p { "a", "b c", "it's", "x\"y", "d..e", "1,2", "z;/$", "A.b", "*" };
   return p;
}
static const vector<string> &textPalette()
{
   static const vector<string> p { "", "t", "two words", "it's", "\"q\"", "'q", "a,b", "x/y", "a=b", "..", "t*", "$x", "\"", "semi;", "(x)", "a.b", "x..y", "x..", "..x" };
   return p;
}
static const vector<double> &valPalette( bool th )
{
   static const vector<double> q { 1, 0, -2.5, 0.1 + 0.2, EPS, NA, PINF, MINF, UND, ACR1, 1e15, 1e-5, 123456789012345.67 };
   static const vector<double> t { 1, 0, -2.5, 0.1 + 0.2, EPS, NA, PINF, MINF, UND, ACR1, 1e15, 1e-5, 123456789012345.67, ACR2, 1e14, 1e-4, 9.9999999999999e-5, -1e250, 5e-324, 2.2250738585072014e-308, 1.0 / 3, 100, 1e21, 999999999999999, 0.001, -1e-300, 4503599627370497.5 };
   return th ? t : q;
}
static TFile base()
{
   TFile f;
   f.uels = { "a", "b c", "it's", "x\"y", "d..e", "1,2", "z;/$", "A.b", "*" };
   f.acr = { { "Small", "" }, { "Big", "rather, big" } };
   return f;
}
static TSym mkSym( const string &n, int type, int dim, int user )
{
   TSym y;
   y.name = n;
   y.type = type;
   y.dim = dim;
   y.user = user;
   return y;
}
static Vals rec( int type, int user, int field, double v )
{
   Vals r {};
   if( type == T_VAR ) r = defVar( user );
   if( type == T_EQU ) r = defEqu( user );
   r[(size_t) field] = v;
   return r;
}
static vector<string> fmtArgs( Ctx &c, Opts &o )
{
   vector<string> a;
   o.dfmt = c.choose( 3, "dformat" );
   if( o.dfmt ) a.push_back( o.dfmt == 1 ? "dFormat=hexponential" : "dFormat=hexBytes" );
   if( o.dfmt == 2 ) o.zero = "0x0000000000000000";
   if( o.dfmt == 1 ) o.zero = "0x0.0p0";
   return a;
}

static void scValues( Ctx &c )
{
   TFile f = base();
   int kind = c.choose( 8, "kind" );
   static const int types[] = { T_PAR, T_PAR, T_VAR, T_VAR, T_VAR, T_EQU, T_EQU, T_PAR }, dims[] = { 0, 1, 0, 1, 2, 0, 1, 2 };
   int type = types[kind], dim = dims[kind], user = 0;
   if( type == T_VAR ) user = dim == 1 ? c.choose( 10, "subtype" ) : 5;
   if( type == T_EQU ) user = dim == 1 ? 53 + c.choose( 7, "subtype" ) : 53;
   TSym y = mkSym( "sym", type, dim, user );
   int field = type == T_PAR ? 0 : c.choose( 5, "field" );
   double v = c.pick( valPalette( c.thorough ) );
   if( dim > 0 )
   {
      TRec r0;
      r0.k.assign( (size_t) dim, "a" );
      r0.v = rec( type, user, 0, 7 );
      TRec r1;
      r1.k.assign( (size_t) dim, "a" );
      r1.k.back() = "b c";
      r1.v = rec( type, user, field, v );
      bool two = c.flip( "two records" );
      if( two ) y.recs = { r0, r1 };
      else
         y.recs = { r1 };
   }
   else
   {
      TRec r;
      r.v = rec( type, user, field, v );
      y.recs = { r };
   }
   f.syms = { y };
   string fn = c.path( "f.gdx" );
   writeFile( c, fn, f );
   Opts o;
   o.acr = f.acr;
   vector<string> a { "f.gdx" };
   auto fa = fmtArgs( c, o );
   a.insert( a.end(), fa.begin(), fa.end() );
   o.filter = !c.flip( "filterdef" );
   if( !o.filter ) a.push_back( "FilterDef=N" );
   if( o.dfmt == 0 && c.flip( "decimal comma" ) )
   {
      a.push_back( "DecimalSep=comma" );
      o.dec = ',';
   }
   Run r = runTool( c, "gdxdump", a );
   CK( r.rc == 0, "exit", "exit code %d: %s", r.rc, r.err.c_str() );
   checkFull( c, f, r.out, o, true, "f.gdx" );
   c.state( mc::hashStr( r.out ) );
   c.outcome( mc::hashStr( r.out ) );
}

static void scLabels( Ctx &c )
{
   TFile f = base();
   int type = c.choose( 3, "type" );
   if( type == 2 ) type = T_VAR;
   int dim = 1 + c.choose( 2 );
   TSym y = mkSym( "sym", type, dim, type == T_VAR ? 5 : 0 );
   auto &L = labelPalette();
   int n = 1 + c.choose( 2, "records" );
   std::set<vector<string>> ks;
   int last = -1;
   for( int i = 0; i < n; i++ )
   {
      TRec r;
      int a = last + 1 + c.choose( (int) L.size() - last - 1 - ( n - 1 - i ), "label" );
      last = a;
      r.k.push_back( L[(size_t) a] );
      if( dim == 2 ) r.k.push_back( c.pick( c.thorough ? L : vector<string> { "a", "it's", "x\"y" } ) );
      if( type == T_SET )
         r.txt = dim == 1 || c.thorough ? c.pick( textPalette() ) : c.pick( vector<string> { "", "it's", "two words" } );
      else
         r.v = rec( type, 5, 0, 1 + i );
      y.recs.push_back( r );
   }
   f.syms = { y };
   Opts o;
   o.acr = f.acr;
   writeFile( c, c.path( "f.gdx" ), f );
   vector<string> a { "f.gdx" };
   int d = c.choose( 5, "delimiter" );
   static const char *dn[] = { "", "Delim=comma", "Delim=tab", "Delim=blank", "Delim=semicolon" };
   if( d ) a.push_back( dn[d] );
   o.delim = ".,\t ;"[d];
   if( n > 1 && d && !c.thorough ) c.prune();
   Run r = runTool( c, "gdxdump", a );
   CK( r.rc == 0, "exit", "exit code %d: %s", r.rc, r.err.c_str() );
   checkFull( c, f, r.out, o, true, "f.gdx" );
   c.state( mc::hashStr( r.out ) );
   c.outcome( mc::hashStr( r.out ) );
}

// several symbols: catalogue, domains, comments, alias, empty symbols, header only, one symbol
static TFile manySyms( Ctx &c, int nmax )
{
   TFile f = base();
   if( c.flip( "no acronyms" ) ) f.acr.clear();
   int n = c.choose( nmax + 1, "symbols" );
   TSym i = mkSym( "i", T_SET, 1, c.choose( 2, "singleton" ) );
   i.recs = { { { "a" }, {}, "t" } };
   static const vector<string> texts { "", "text", "(par)", "a, b", "say \"x\"", "don't", "x/y" };
   for( int q = 0; q < n; q++ )
   {
      int k = c.choose( 9, "symbol" );
      string nm = "s" + std::to_string( q + 1 );
      TSym y;
      if( k == 0 )
      {
         y = i;
         y.name = nm;
      }
      else if( k == 1 )
      {
         y = mkSym( nm, T_PAR, 2, 0 );
         // over the first set of the file when there is one
         for( auto &z: f.syms )
            if( z.type == T_SET && z.dim == 1 && z.recs.size() && y.dom.empty() ) y.dom = { z.name, "*" };
         y.strict = !y.dom.empty();
         y.recs = { { { "a", "b c" }, { 3 }, "" }, { { "a", "it's" }, { EPS }, "" } };
      }
      else if( k == 2 )
      {
         y = mkSym( nm, T_PAR, 0, 0 );
         y.recs = { { {}, { 4 }, "" } };
      }
      else if( k == 3 )
         y = mkSym( nm, T_PAR, 0, 0 );
      else if( k == 4 )
         y = mkSym( nm, T_PAR, 1, 0 );
      else if( k == 5 )
      {
         y = mkSym( nm, T_VAR, 1, 3 );
         y.dom = { "nowhere" };
         y.recs = { { { "a" }, rec( T_VAR, 3, 0, 2 ), "" } };
      }
      else if( k == 6 )
      {
         y = mkSym( nm, T_EQU, 0, 54 );
         y.recs = { { {}, rec( T_EQU, 54, 1, 2 ), "" } };
      }
      else if( k == 7 )
      {
         y = mkSym( nm, T_ALIAS, 1, 0 );
         y.aliasOf = 0;
         for( size_t z = 0; z < f.syms.size(); z++ )
            if( f.syms[z].type == T_SET ) y.aliasOf = (int) z + 1;
      }
      else
         y = mkSym( nm, T_SET, 2, 0 );
      if( y.type != T_ALIAS )
      {
         if( q == 0 )
         {
            y.text = c.pick( texts );
            int nc = c.choose( 3, "comments" );
            if( nc > 0 ) y.comments.push_back( "first comment" );
            if( nc > 1 ) y.comments.push_back( "2 / ; 'x" );
         }
         else
            y.text = q % 2 ? "plain text" : "";
      }
      else if( y.aliasOf )
         y.dim = f.syms[(size_t) y.aliasOf - 1].dim;
      f.syms.push_back( y );
   }
   return f;
}

static string typeWord( int t )
{
   static const char *n[] = { "Set", "Par", "Var", "Equ", "Alias" };
   return n[t];
}
static vector<string> words( const string &s )
{
   std::stringstream ss( s );
   vector<string> r;
   string w;
   while( ss >> w ) r.push_back( w );
   return r;
}
static vector<string> lines( const string &s )
{
   std::stringstream ss( s );
   vector<string> r;
   string w;
   while( std::getline( ss, w ) ) r.push_back( w );
   return r;
}

static void scCatalogue( Ctx &c )
{
   TFile f = manySyms( c, c.thorough ? 3 : 2 );
   int view = c.choose( 9, "view" );
   Opts o;
   o.acr = f.acr;
   writeFile( c, c.path( "f.gdx" ), f );
   auto run = [&]( vector<string> a ) {
      a.insert( a.begin(), "f.gdx" );
      Run r = runTool( c, "gdxdump", a );
      CK( r.rc == 0, "exit", "exit code %d: %s", r.rc, r.err.c_str() );
      c.state( mc::hashStr( r.out ) );
      c.outcome( mc::hashStr( r.out ) );
      return r.out;
   };
   // listings that follow the acronyms
   auto afterAcr = [&]( const string &out ) {
      Reader rd( c, out, o );
      readAcronyms( c, rd, f );
      return out.substr( rd.p );
   };
   auto targetName = [&]( const TSym &y ) { return y.aliasOf ? f.syms[(size_t) y.aliasOf - 1].name : string( "*" ); };
   auto count = [&]( const TSym &y ) { return y.type == T_ALIAS ? 0 : y.dim == 0 && y.type != T_SET ? 1 : (int) y.recs.size(); };
   auto text = [&]( const TSym &y ) { return y.type == T_ALIAS ? "Aliased with " + targetName( y ) : y.text; };
   switch( view )
   {
      case 0: checkFull( c, f, run( {} ), o, true, "f.gdx" ); break;
      case 1: checkFull( c, f, run( { "NoData" } ), o, false, "f.gdx" ); break;
      case 2:
      {
         auto l = lines( afterAcr( run( { "Symbols" } ) ) );
         CK( l.size() == f.syms.size() + 1, "symbols", "%zu lines", l.size() );
         std::set<string> seen;
         for( size_t n = 1; n < l.size(); n++ )
         {
            auto w = words( l[n] );
            CK( w.size() >= 5 && w[0] == std::to_string( n ) && seen.insert( w[1] ).second, "symbols", "line %zu is <%s>", n, l[n].c_str() );
            bool found = false;
            for( auto &y: f.syms )
               if( y.name == w[1] )
               {
                  found = true;
                  string t = text( y );
                  CK( w[2] == std::to_string( y.dim ) && w[3] == typeWord( y.type ) && w[4] == std::to_string( count( y ) ) && l[n].size() >= t.size() && l[n].substr( l[n].size() - t.size() ) == t, "symbols", "symbol %s (dim %d, %s, %d records, text %s) is shown as <%s>", y.name.c_str(), y.dim, typeWord( y.type ).c_str(), count( y ), t.c_str(), l[n].c_str() );
               }
            CK( found, "symbols", "unknown symbol in <%s>", l[n].c_str() );
         }
         break;
      }
      case 3:
      {
         auto l = lines( afterAcr( run( { "DomainInfo" } ) ) );
         CK( l.size() == f.syms.size() + 1, "domaininfo", "%zu lines", l.size() );
         std::set<string> seen;
         for( size_t n = 1; n < l.size(); n++ )
         {
            auto w = words( l[n] );
            CK( w.size() >= 4 && seen.insert( w[0] ).second, "domaininfo", "line %zu is <%s>", n, l[n].c_str() );
            int nr = atoi( w[0].c_str() );
            CK( nr >= 1 && nr <= (int) f.syms.size(), "domaininfo", "line %zu is <%s>", n, l[n].c_str() );
            auto &y = f.syms[(size_t) nr - 1];
            string kind = y.type == T_ALIAS ? w[2] : y.dom.empty() || y.dim == 0 ? "None" : y.strict ? "Regular" : "Relaxed";
            string sig = y.name;
            if( y.dim )
            {
               sig += "(";
               for( int d = 0; d < y.dim; d++ ) sig += string( d ? ", " : "" ) + ( y.type == T_ALIAS || y.dom.empty() ? "*" : y.dom[(size_t) d] );
               sig += ")";
            }
            CK( w[1] == typeWord( y.type ) && w[2] == kind, "domaininfo", "symbol %s with %s domain is shown as <%s>", y.name.c_str(), kind.c_str(), l[n].c_str() );
            if( y.type != T_ALIAS ) CK( l[n].size() > sig.size() && l[n].substr( l[n].size() - sig.size() - 1 ) == " " + sig, "domaininfo", "symbol %s is shown as <%s>", sig.c_str(), l[n].c_str() );
         }
         break;
      }
      case 4:
      case 5:
      {
         string out = afterAcr( run( { view == 4 ? "SymbolsAsSet" : "SymbolsAsSetDI" } ) );
         Reader rd( c, out, o );
         auto b = out.find( "/\n" );
         CK( b != string::npos, "asset", "no data in <%s>", out.c_str() );
         rd.p = b + 2;
         for( size_t n = 0; n < f.syms.size(); n++ )
         {
            auto &y = f.syms[n];
            string nm = rd.quoted();
            rd.need( "." );
            string dim = rd.ident();
            rd.need( "." );
            string ty = rd.quoted(), tx, dom;
            if( view == 5 )
            {
               rd.need( "." );
               dom = rd.quoted();
               string w;
               for( int d = 0; d < y.dim; d++ ) w += string( d ? ", " : "" ) + ( y.type == T_ALIAS || y.dom.empty() ? "*" : y.dom[(size_t) d] );
               if( y.type != T_ALIAS ) CK( dom == w, "asset", "symbol %s has domain <%s>, expected <%s>", nm.c_str(), dom.c_str(), w.c_str() );
            }
            else if( rd.eat( " " ) )
               tx = rd.quoted();
            if( n + 1 < f.syms.size() ) rd.need( "," );
            rd.need( "\n" );
            CK( nm == y.name && dim == std::to_string( y.dim ) && ty == typeWord( y.type ) && ( view == 5 || tx == text( y ) ), "asset", "symbol %s is shown as %s.%s.%s <%s>", y.name.c_str(), nm.c_str(), dim.c_str(), ty.c_str(), tx.c_str() );
         }
         rd.need( "/;\n" );
         CK( rd.end(), "asset", "junk at the end" );
         break;
      }
      case 6:
      {
         // version information
         string out = run( { "-V" } );
         auto l = lines( out );
         auto val = [&]( const char *k ) {
            for( auto &x: l )
               if( x.find( k ) != string::npos && x.find( ':' ) != string::npos )
               {
                  string v = x.substr( x.find( ':' ) + 1 );
                  auto q = v.find_first_not_of( ' ' );
                  return q == string::npos ? string() : v.substr( q );
               }
            return string( "?" );
         };
         CK( val( "Symbols" ) == std::to_string( f.syms.size() ) && val( "Unique Elements" ) == std::to_string( f.uels.size() ) && val( "Producer" ) == "verif" && val( "File format" ) == "7" && val( "Compression" ) == "0", "version", "version output is <%s>", out.c_str() );
         break;
      }
      case 7:
      {
         // one symbol, header kept
         if( f.syms.empty() ) c.prune();
         size_t n = (size_t) c.choose( (int) f.syms.size() );
         string nm = f.syms[n].name;
         if( c.flip( "upper case" ) ) nm[0] = (char) toupper( nm[0] );
         string out = afterAcr( run( { "Symb=" + nm } ) );
         Reader rd( c, out, o );
         readSymbol( c, rd, f, f.syms[n], true );
         rd.skipWs();
         CK( rd.end(), "trailing", "unexpected output at the end <%s>", out.substr( rd.p ).c_str() );
         break;
      }
      default:
      {
         // one symbol, data only
         if( f.syms.empty() ) c.prune();
         size_t n = (size_t) c.choose( (int) f.syms.size() );
         auto &y = f.syms[n];
         if( y.type == T_ALIAS ) c.prune();
         string out = afterAcr( run( { "NoHeader", "Symb", "=" + y.name } ) );
         Reader rd( c, out, o );
         if( y.dim == 0 && y.recs.empty() ) c.prune();
         Parsed r;
         rd.readComments( r );
         rd.items( r, y, false );
         compareData( c, r, y, true, o );
      }
   }
}

static void scCsv( Ctx &c )
{
   TFile f = base();
   CsvOpt co;
   Opts o;
   int kind = c.choose( 10, "kind" );
   static const int types[] = { T_PAR, T_PAR, T_PAR, T_VAR, T_VAR, T_EQU, T_SET, T_SET, T_ALIAS, T_PAR }, dims[] = { 0, 1, 2, 0, 1, 2, 1, 2, 1, 3 };
   int type = types[kind], dim = dims[kind], user = type == T_VAR ? 5 : type == T_EQU ? 54 : 0;
   int st = type == T_ALIAS ? T_SET : type;
   TSym y = mkSym( "sym", st, dim, user );
   const auto &L = labelPalette();
   static const vector<double> V { 1, -2.5, 0.1 + 0.2, EPS, 0, PINF, MINF, NA, UND, ACR2 };
   if( dim == 0 )
   {
      TRec r;
      r.v = rec( st, user, 0, c.pick( V ) );
      y.recs = { r };
   }
   else if( dim == 1 )
   {
      int m = c.choose( 3, "records" );
      int last = -1;
      for( int i = 0; i < m && i < 2; i++ )
      {
         TRec r;
         last = last + 1 + c.choose( (int) L.size() - last - 1 - ( std::min( m, 2 ) - 1 - i ) );
         r.k = { L[(size_t) last] };
         r.v = rec( st, user, i == 1 && st == T_VAR ? 1 : 0, i ? 7 : m == 2 && !c.thorough ? 0.25 : c.pick( V ) );
         if( st == T_SET ) r.txt = i ? "two" : c.pick( vector<string> { "", "it's", "say \"x\" \"y\"", "a,b", "\"" } );
         y.recs.push_back( r );
      }
      
   }
   else
   {
      // every subset of a small grid
      if( dim == 3 )
         for( int i = 0; i < 8; i++ )
            if( c.flip( "cell" ) ) y.recs.push_back( { { i & 4 ? "it's" : "a", i & 2 ? "1,2" : "a", i & 1 ? "x\"y" : "a" }, { 1.0 + i }, "" } );
      static const vector<string> r { "a", "it's" }, k { "a", "x\"y", "1,2" };
      for( auto &a: r )
         for( auto &b: k )
            if( dim == 2 && c.flip( "cell" ) )
            {
               TRec t;
               t.k = { a, b };
               t.v = rec( st, user, 0, 1 + (double) y.recs.size() );
               y.recs.push_back( t );
            }
      int d = c.thorough || y.recs.size() < 2 ? c.choose( 3, "domains" ) : 1;
      if( d == 1 ) y.dom = { "e", "e" };
      if( d == 2 ) y.dom = { "e", "*" };
      if( d && dim == 3 ) y.dom.push_back( "e" );
   }
   f.syms = { y };
   string name = "sym";
   if( type == T_ALIAS )
   {
      TSym z = mkSym( "ali", T_ALIAS, dim, 0 );
      z.aliasOf = 1;
      f.syms.push_back( z );
      name = "ali";
   }
   writeFile( c, c.path( "f.gdx" ), f );
   o.acr = f.acr;
   vector<string> a { "f.gdx", "Format=csv", "Symb=" + name };
   int d = c.choose( dim >= 2 && !c.thorough ? 2 : 5, "delimiter" );
   static const char *dn[] = { "", "Delim=semicolon", "Delim=tab", "Delim=blank", "Delim=period" };
   o.delim = ",;\t ."[d];
   if( d ) a.push_back( dn[d] );
   if( d && d < 4 && c.flip( "decimal comma" ) )
   {
      o.dec = ',';
      a.push_back( "DecimalSep=comma" );
   }
   if( o.delim == '.' )
      for( auto &r: y.recs )
         for( auto &x: r.v )
            if( x != std::floor( x ) ) c.prune();
   if( dim >= 2 && c.flip( "cdim" ) )
   {
      co.cdim = true;
      a.push_back( "CDim=Y" );
   }
   if( ( type == T_VAR || type == T_EQU ) && c.flip( "all fields" ) )
   {
      co.all = true;
      a.push_back( "CSVAllFields" );
   }
   if( st == T_SET && c.flip( "set text" ) )
   {
      co.settext = true;
      a.push_back( "CSVSetText" );
   }
   int h = dim > 0 && !c.thorough && ( d || y.recs.size() > 1 ) ? 0 : c.choose( 4, "header" );
   if( h == 1 )
   {
      co.nohdr = true;
      a.push_back( "NoHeader" );
   }
   if( h >= 2 )
   {
      co.hasHeader = true;
      co.header = h == 2 ? "my,header" : "";
      a.push_back( "Header=" + string( h == 2 ? co.header : "''" ) );
   }
   Run r = runTool( c, "gdxdump", a );
   CK( r.rc == 0, "exit", "exit code %d: %s", r.rc, r.err.c_str() );
   checkCsv( c, f, f.syms.back(), r.out, o, co );
   c.state( mc::hashStr( r.out ) );
   c.outcome( mc::hashStr( r.out ) );
}

// every short string over a letter, a quote, a separator and (inside) a blank, as row label, column label or set text
static void scQuoting( Ctx &c )
{
   TFile f = base();
   CsvOpt co;
   Opts o;
   int role = c.choose( 3, "role" ), len = 1 + c.choose( c.thorough ? 5 : 4, "length" );
   char q = c.flip( "quote" ) ? '\'' : '"';
   string t;
   for( int i = 0; i < len; i++ ) t += i && i + 1 < len ? "a\", "[c.choose( 4, "char" )] : "a\","[c.choose( 3, "char" )];
   for( auto &ch: t )
      if( ch == '"' ) ch = q;
   if( q == '\'' && t.find( q ) == string::npos ) c.prune();
   // as long as possible
   if( int pad = c.choose( 3, "length" ) )
   {
      string z( ( role == 2 ? 255 : 63 ) - t.size(), 'z' );
      t = pad == 1 ? t + z : z + t;
   }
   TSym y = mkSym( "sym", role == 2 ? T_SET : T_PAR, role == 1 ? 2 : 1, 0 );
   f.uels = { "first", "zz" };
   auto label = [&]( const string &l ) {
      if( std::find( f.uels.begin(), f.uels.end(), l ) == f.uels.end() ) f.uels.push_back( l );
      return l;
   };
   if( role == 0 ) y.recs = { { { "first" }, { 1 }, "" }, { { "zz" }, { 2 }, "" }, { { label( t ) }, { 3 }, "" } };
   if( role == 1 ) y.recs = { { { "first", "zz" }, { 1 }, "" }, { { "first", label( t ) }, { 2 }, "" } };
   if( role == 2 ) y.recs = { { { "first" }, { 0 }, t }, { { "zz" }, { 0 }, "" } };
   f.syms = { y };
   writeFile( c, c.path( "f.gdx" ), f );
   o.acr = f.acr;
   vector<string> a { "f.gdx", "Format=csv", "Symb=sym" };
   o.delim = ',';
   if( role == 1 )
   {
      co.cdim = true;
      a.push_back( "CDim=Y" );
   }
   if( role == 2 )
   {
      co.settext = true;
      a.push_back( "CSVSetText" );
   }
   Run r = runTool( c, "gdxdump", a );
   CK( r.rc == 0, "exit", "exit code %d: %s", r.rc, r.err.c_str() );
   checkCsv( c, f, f.syms.back(), r.out, o, co );
   c.state( mc::hashStr( r.out ) );
   c.outcome( mc::hashStr( r.out ) );
}

// records whose elements have no label: shown under their number, in every format and however large it is
static void scUnlabelled( Ctx &c )
{
   static const vector<int> N { 1, 2, 3, 4, 300, 70000, 2000000000 };// 1 and 2 have labels
   int dim = 1 + c.choose( 3, "dimension" ), n = 1 + c.choose( c.thorough ? 3 : 2, "records" ), type = c.flip( "variable" ) ? T_VAR : T_PAR;
   std::set<vector<int>> ks;
   for( int i = 0; i < n; i++ )
   {
      vector<int> k;
      for( int d = 0; d < dim; d++ ) k.push_back( d + 1 == dim || d == 0 ? c.pick( N ) : 1 + c.choose( 2 ) * 2 );
      if( !ks.empty() && !( *ks.rbegin() < k ) ) c.prune();
      ks.insert( k );
   }
   TFile f;
   f.uels = { "a", "b c" };
   auto label = [&]( int e ) { return e <= 2 ? f.uels[(size_t) e - 1] : "L__" + std::to_string( e ); };
   TSym y = mkSym( "sym", type, dim, type == T_VAR ? 5 : 0 );
   Obj o;
   int rc;
   CK( o->gdxOpenWrite( c.path( "f.gdx" ).c_str(), "verif", rc ), "setup", "open" );
   o->gdxUELRegisterRawStart();
   for( auto &u: f.uels ) o->gdxUELRegisterRaw( u.c_str() );
   o->gdxUELRegisterDone();
   CK( o->gdxDataWriteRawStart( "sym", "", dim, type, y.user ), "setup", "start" );
   int bad = 0;
   for( auto &k: ks )
   {
      TRec r;
      for( int e: k )
      {
         r.k.push_back( label( e ) );
         bad += e > 2;
      }
      r.v = rec( type, y.user, 0, 1 + (double) y.recs.size() );
      y.recs.push_back( r );
      CK( o->gdxDataWriteRaw( k.data(), r.v.data() ), "setup", "write" );
   }
   CK( o->gdxDataWriteDone(), "setup", "done" );
   CK( o->gdxClose() == 0, "setup", "close" );
   f.syms = { y };
   Opts op;
   CsvOpt co;
   vector<string> a { "f.gdx" };
   int view = c.choose( dim > 1 ? 3 : 2, "format" );
   if( view )
   {
      a.push_back( "Format=csv" );
      a.push_back( "Symb=sym" );
      op.delim = ',';
   }
   if( view == 2 )
   {
      a.push_back( "CDim=Y" );
      co.cdim = true;
   }
   Run r = runTool( c, "gdxdump", a );
   CK( r.rc == 0, "exit", "exit code %d: %s", r.rc, r.err.c_str() );
   string out = r.out;
   auto b = out.find( "**** " );
   CK( ( b != string::npos ) == ( bad > 0 ), "unlabelled", "%d elements without label: <%s>", bad, out.c_str() );
   if( bad )
   {
      auto e = out.find( '\n', b );
      CK( e != string::npos && out.find( "reference(s) to unique elements", b ) < e, "unlabelled", "message in <%s>", out.c_str() );
      out.erase( b, e + 1 - b );
   }
   if( view ) checkCsv( c, f, y, out, op, co );
   else
      checkFull( c, f, out, op, true, "f.gdx" );
   c.state( mc::hashStr( r.out ) );
   c.outcome( mc::hashStr( r.out ) );
}

// every dimension
static void scWide( Ctx &c )
{
   int dim = 1 + c.choose( 20, "dimension" ), kind = c.choose( 4, "type" ), n = c.choose( 3, "records" );
   static const int T[] = { T_SET, T_PAR, T_VAR, T_EQU }, U[] = { 0, 0, 5, 53 };
   TFile f = base();
   TSym y = mkSym( "sym", T[kind], dim, U[kind] );
   for( int i = 0; i < n; i++ )
   {
      TRec r;
      for( int d = 0; d < dim; d++ ) r.k.push_back( f.uels[(size_t) ( d + ( d + 1 == dim ? i : 0 ) ) % f.uels.size()] );
      if( y.type == T_SET ) r.txt = i ? "text" : "";
      else
         r.v = rec( y.type, y.user, 0, 2 + i );
      y.recs.push_back( r );
   }
   int dk = c.choose( 6, "domain" );
   if( dk >= 3 )
   {
      // as long as SymbolsAsSetDI can show, and one more or less
      size_t len = 59u + (size_t) dk - 3u * (size_t) ( dim - 1 );
      if( len > 63 ) c.prune();
      y.dom.push_back( string( len, 'd' ) );
      for( int d = 1; d < dim; d++ ) y.dom.push_back( "*" );
   }
   else if( dk )
      for( int d = 0; d < dim; d++ ) y.dom.push_back( dk == 1 ? fmt( "dom%d", d + 1 ) : d % 2 ? "*" : "rel" );
   f.syms = { y };
   writeFile( c, c.path( "f.gdx" ), f );
   Opts o;
   o.acr = f.acr;
   CsvOpt co;
   vector<string> a { "f.gdx" };
   int view = c.choose( 6, "format" );
   if( dk >= 3 && view != 4 && view != 5 ) c.prune();
   if( view == 1 || view == 2 )
   {
      a.push_back( "Format=csv" );
      a.push_back( "Symb=sym" );
      o.delim = ',';
      if( view == 2 )
      {
         a.push_back( "CDim=Y" );
         co.cdim = true;
      }
   }
   if( view == 3 ) a.push_back( "NoData" );
   if( view == 4 ) a.push_back( "DomainInfo" );
   if( view == 5 ) a.push_back( "SymbolsAsSetDI" );
   Run r = runTool( c, "gdxdump", a );
   CK( r.rc == 0, "exit", "exit code %d: %s", r.rc, r.err.c_str() );
   if( view == 0 || view == 3 ) checkFull( c, f, r.out, o, view == 0, "f.gdx" );
   else if( view == 5 )
   {
      string sig;
      for( int d = 0; d < dim; d++ ) sig += string( d ? ", " : "" ) + ( dk ? y.dom[(size_t) d] : string( "*" ) );
      // a name of a GAMS label: longer domains cannot be shown, and this is said
      if( sig.size() > 63 ) CK( r.out.find( sig ) == string::npos && r.out.find( "Domain exceeds 63 characters" ) != string::npos, "asset", "domain of %zu characters: <%s>", sig.size(), r.out.c_str() );
      else
         CK( r.out.find( fmt( "\"sym\".%d.\"%s\".\"%s\"\n", dim, typeWord( y.type ).c_str(), sig.c_str() ) ) != string::npos, "asset", "domain %s: <%s>", sig.c_str(), r.out.c_str() );
   }
   else if( view == 4 )
   {
      string sig;
      for( int d = 0; d < dim; d++ ) sig += string( d ? ", " : "" ) + ( dk ? y.dom[(size_t) d] : string( "*" ) );
      CK( r.out.find( string( dk ? "Relaxed" : "None" ) + " sym(" + sig + ")\n" ) != string::npos, "domaininfo", "domain %s: <%s>", sig.c_str(), r.out.c_str() );
   }
   else
      checkCsv( c, f, y, r.out, o, co );
   c.state( mc::hashStr( r.out ) );
   c.outcome( mc::hashStr( r.out ) );
}

// replacement strings for special values, in listing and CSV
static void scSpecialOut( Ctx &c )
{
   TFile f = base();
   TSym y = mkSym( "sym", T_PAR, 1, 0 );
   static const double V[] = { EPS, NA, PINF, MINF, UND, 0 };
   static const char *N[] = { "EpsOut", "NaOut", "PinfOut", "MinfOut", "UndfOut", "ZeroOut" }, *R[] = { "e1", "n2", "p3", "m4", "u5", "z6" };
   auto &L = labelPalette();
   for( int i = 0; i < 6; i++ ) y.recs.push_back( { { L[(size_t) i] }, { V[i] }, "" } );
   y.recs.push_back( { { L[6] }, { 2.5 }, "" } );
   y.recs.push_back( { { L[7] }, { ACR1 }, "" } );
   f.syms = { y };
   writeFile( c, c.path( "f.gdx" ), f );
   Opts o;
   o.acr = f.acr;
   o.filter = false;
   string *slot[] = { &o.eps, &o.na, &o.pinf, &o.minf, &o.und, &o.zero };
   bool csv = c.flip( "csv" );
   vector<string> a { "f.gdx", "FilterDef=N" };
   if( csv )
   {
      a.push_back( "Format=csv" );
      a.push_back( "Symb=sym" );
      o.delim = ',';
   }
   for( int i = 0; i < 6; i++ )
      if( c.flip( N[i] ) )
      {
         *slot[i] = R[i];
         int how = i ? 0 : c.choose( 3, "spelling" );
         string nm = N[i];
         if( how == 1 )
            for( auto &ch: nm ) ch = (char) toupper( ch );
         if( how == 2 )
         {
            a.push_back( nm );
            a.push_back( string( "=" ) + R[i] );
         }
         else
            a.push_back( nm + "=" + R[i] );
      }
   Run r = runTool( c, "gdxdump", a );
   CK( r.rc == 0, "exit", "exit code %d: %s", r.rc, r.err.c_str() );
   if( csv ) checkCsv( c, f, y, r.out, o, {} );
   else
      checkFull( c, f, r.out, o, true, "f.gdx" );
   c.state( mc::hashStr( r.out ) );
   c.outcome( mc::hashStr( r.out ) );
}

static void scGamsbas( Ctx &c )
{
   TFile f = base();
   Opts o;
   o.acr = f.acr;
   int n = 1 + c.choose( c.thorough ? 3 : 2, "symbols" );
   for( int q = 0; q < n; q++ )
   {
      int k = c.choose( 6, "symbol" );
      int type = k < 2 ? T_VAR : k < 4 ? T_EQU : k < 5 ? T_PAR : T_VAR, dim = k == 5 ? 2 : k % 2;
      TSym y = mkSym( "s" + std::to_string( q + 1 ), type, dim, type == T_VAR ? 5 : type == T_EQU ? 53 : 0 );
      int m = dim == 0 ? 1 : c.choose( n == 1 ? 5 : 3, "records" );
      for( int i = 0; i < m; i++ )
      {
         TRec r;
         if( dim ) r.k = { labelPalette()[(size_t) ( i + q )] };
         if( dim == 2 ) r.k.push_back( labelPalette()[(size_t) ( 4 - i )] );
         int lm = c.choose( 4, "level and marginal" );
         r.v = rec( type, y.user, 0, lm & 1 ? 1.5 + i : 0 );
         if( type != T_PAR && lm & 2 ) r.v[1] = i % 2 ? EPS : -3;
         y.recs.push_back( r );
      }
      f.syms.push_back( y );
   }
   writeFile( c, c.path( "f.gdx" ), f );
   o.filter = !c.flip( "filterdef" );
   vector<string> a { "f.gdx", "Format=gamsbas" };
   if( !o.filter ) a.push_back( "FilterDef=N" );
   Run r = runTool( c, "gdxdump", a );
   CK( r.rc == 0, "exit", "exit code %d: %s", r.rc, r.err.c_str() );
   // assignments: name.FIELD ('labels') = value ;
   std::map<std::pair<string, Item>, double> got, want;
   Reader rd( c, r.out, o );
   readAcronyms( c, rd, f );
   int off = 0, on = 0;
   while( true )
   {
      rd.skipWs();
      if( rd.end() ) break;
      if( rd.at( "$" ) )
      {
         string l = rd.line();
         off += l == "$offListing";
         on += l == "$onListing";
         continue;
      }
      if( rd.eat( ";" ) ) continue;
      string nm = rd.ident();
      rd.need( "." );
      string fl = rd.ident();
      int fi = 0;
      while( fi < 5 && fl != FLD[fi] ) fi++;
      rd.skipWs();
      vector<string> k;
      if( rd.eat( "(" ) )
      {
         int dm = 1;
         for( auto &y: f.syms )
            if( y.name == nm ) dm = y.dim;
         k = rd.labels( dm );
         rd.need( ")" );
      }
      rd.skipWs();
      rd.need( "=" );
      rd.skipWs();
      double v = rd.value();
      rd.need( " ;" );
      CK( ( got.emplace( std::make_pair( nm, Item { k, fi } ), v ).second ), "duplicate", "%s.%s assigned twice", nm.c_str(), fl.c_str() );
   }
   for( auto &y: f.syms )
      if( y.type != T_PAR )
         for( auto &[k, v]: expected( y, o.filter, true ) ) want[{ y.name, k }] = v;
   CK( got == want, "basis", "%zu assignments instead of %zu: <%s>", got.size(), want.size(), r.out.c_str() );
   CK( off == on, "listing", "listing switched off %d times and on %d times", off, on );
   c.state( mc::hashStr( r.out ) );
   c.outcome( mc::hashStr( r.out ) );
}

// label and text tables
static void scTables( Ctx &c )
{
   TFile f;
   auto &L = labelPalette();
   int m = c.thorough ? c.choose( (int) L.size() + 1, "labels" ) : c.pick( vector<int> { 0, 1, 3, (int) L.size() }, "labels" );
   for( int i = 0; i < m; i++ ) f.uels.push_back( L[(size_t) ( i * 2 % (int) L.size() )] );
   // sets with texts
   vector<string> table { "" };
   if( c.flip( "unused texts" ) ) f.texts = { "never used", "t1" };
   table.insert( table.end(), f.texts.begin(), f.texts.end() );
   int ns = m ? 1 + c.choose( 3, "symbols" ) : 0, mx = 0;
   for( int q = 0; q < ns; q++ )
   {
      bool set = !c.flip( "parameter" );
      TSym y = mkSym( "s" + std::to_string( q + 1 ), set ? T_SET : T_PAR, 1, 0 );
      int k = c.choose( 3, "elements" );
      for( int i = 0; i < k && i < m; i++ )
      {
         TRec r;
         r.k = { f.uels[(size_t) i] };
         if( set )
         {
            r.txt = c.pick( vector<string> { "", "t1", "say \"t2\"" } );
            size_t id = 0;
            while( id < table.size() && table[id] != r.txt ) id++;
            if( id == table.size() ) table.push_back( r.txt );
            mx = std::max( mx, (int) id );
         }
         else
            r.v = { 100 };
         y.recs.push_back( r );
      }
      f.syms.push_back( y );
   }
   writeFile( c, c.path( "f.gdx" ), f );
   int view = c.choose( 3 );
   vector<string> a { "f.gdx" };
   if( view == 0 ) a.push_back( "SetText" );
   else
      a.push_back( "UelTable=tab" );
   if( view == 2 )
   {
      a.push_back( "Format=csv" );
      a.push_back( "Symb=x" );
   }
   Run r = runTool( c, "gdxdump", a );
   CK( r.rc == 0, "exit", "exit code %d: %s", r.rc, r.err.c_str() );
   Opts o;
   auto l = lines( r.out );
   if( view == 0 )
   {
      CK( l.size() == 3 + table.size(), "settext", "%zu lines for %zu texts: <%s>", l.size(), table.size(), r.out.c_str() );
      CK( l[0].substr( l[0].rfind( ' ' ) + 1 ) == std::to_string( table.size() ), "settext", "count line <%s>", l[0].c_str() );
      CK( l[1].substr( l[1].rfind( ' ' ) + 1 ) == std::to_string( mx ), "settext", "largest used text is %d: <%s>", mx, l[1].c_str() );
      for( size_t i = 0; i < table.size(); i++ ) CK( l[3 + i] == fmt( "%6zu   \"%s\"", i, table[i].c_str() ), "settext", "text %zu (%s) is shown as <%s>", i, table[i].c_str(), l[3 + i].c_str() );
   }
   else if( view == 2 )
   {
      Reader rd( c, r.out, o );
      for( auto &u: f.uels )
      {
         rd.skipWs();
         CK( rd.quoted() == u, "ueltable", "label %s: <%s>", u.c_str(), r.out.c_str() );
      }
      rd.skipWs();
      CK( rd.end(), "ueltable", "more labels than expected <%s>", r.out.c_str() );
   }
   else
   {
      Reader rd( c, r.out, o );
      rd.skipWs();
      if( f.uels.empty() )
      {
         rd.need( "$onEmpty\nSet tab(*) / /;\n$offEmpty\n" );
      }
      else
      {
         rd.need( "Set tab /\n" );
         for( size_t i = 0; i < f.uels.size(); i++ )
         {
            rd.skipWs();
            CK( rd.quoted() == f.uels[i], "ueltable", "label %zu (%s): <%s>", i + 1, f.uels[i].c_str(), r.out.c_str() );
            rd.skipWs();
            rd.need( i + 1 < f.uels.size() ? "," : "/;" );
         }
      }
      checkFull( c, f, r.out.substr( rd.p ), o, true, "f.gdx" );
   }
   c.state( mc::hashStr( r.out ) );
   c.outcome( mc::hashStr( r.out ) );
}

// what is refused, and where the output goes
// spellings of an option
static void scSpelling( Ctx &c )
{
   TFile f = base();
   Opts o;
   o.acr = f.acr;
   for( int k = 0; k < 2; k++ )
   {
      TSym y = mkSym( k ? "e" : "v", k ? T_EQU : T_VAR, 1, k ? 54 : 3 );
      for( int i = 0; i < 3; i++ )
      {
         TRec r;
         r.k = { labelPalette()[(size_t) i] };
         r.v = rec( y.type, y.user, i, 7 );
         y.recs.push_back( r );
      }
      f.syms.push_back( y );
   }
   writeFile( c, c.path( "f.gdx" ), f );
   string name = c.pick( vector<string> { "FilterDef", "filterdef", "FILTERDEF" } );
   string val = c.pick( vector<string> { "Y", "y", "1", "Yes", "yes", "N", "n", "0", "No", "no" } );
   o.filter = val[0] == 'Y' || val[0] == 'y' || val[0] == '1';
   vector<string> a { "f.gdx" };
   switch( c.choose( 4, "separator" ) )
   {
      case 0: a.push_back( name + "=" + val ); break;
      case 1: a.push_back( name ), a.push_back( val ); break;
      case 2: a.push_back( name + "=" ), a.push_back( val ); break;
      default: a.push_back( name ), a.push_back( "=" ), a.push_back( val ); break;
   }
   Run r = runTool( c, "gdxdump", a );
   CK( r.rc == 0, "exit", "exit code %d: %s", r.rc, r.out.c_str() );
   checkFull( c, f, r.out, o, true, "f.gdx" );
   c.state( mc::hashStr( r.out ) );
   c.outcome( mc::hashStr( r.out ) );
}

static void scInvocation( Ctx &c )
{
   TFile f = base();
   TSym y = mkSym( "sym", T_PAR, 1, 0 );
   y.recs = { { { "a" }, { 4 }, "" } };
   f.syms = { y };
   writeFile( c, c.path( "f.gdx" ), f );
   writeBytes( c.path( "junk.gdx" ), "this is not a GDX file" );
   Opts o;
   o.acr = f.acr;
   string longName( 300, 'q' ), longer( 3000, 'r' );
   int k = c.choose( 26, "invocation" );
   vector<string> a;
   bool bad = true;
   switch( k )
   {
      case 0: a = { "missing.gdx" }; break;
      case 1: a = { "missing" }; break;
      case 2: a = { "junk.gdx" }; break;
      case 3: a = { "f.gdx", "Symb=nosuch" }; break;
      case 4: a = { "f.gdx", "nonsense" }; break;
      case 5: a = { "f.gdx", "Format=xml" }; break;
      case 6: a = { "f.gdx", "dFormat=octal" }; break;
      case 7: a = { "f.gdx", "Delim=bar" }; break;
      case 8: a = { "f.gdx", "DecimalSep=bar" }; break;
      case 9: a = { "f.gdx", "Format=csv" }; break;
      case 10: a = { "f.gdx", "Format=csv", "Symb=sym", "Delim=comma", "DecimalSep=comma" }; break;
      case 11: a = { "f.gdx", "Symb=sym", "Symb=sym" }; break;
      case 12: a = { "f.gdx", "Output=/nosuchdir/x.txt" }; break;
      case 13: a = { "f.gdx", "Symb=" + longName }; break;
      case 14: a = { "f.gdx", longName }; break;
      case 15: a = { "f.gdx", "Delim=" + longer }; break;
      case 16: a = {}; break;
      case 17: a = { "f.gdx", "Symb" }; break;
      case 18: a = { "f.gdx", "Output=" }; break;
      case 19: a = { longName }; break;
      case 20: a = { "f.gdx", "Symb=nosuch", "Format=csv" }; break;
      case 21:
         a = { "f" };
         bad = false;
         break;
      case 22:
         a = { "f.gdx", "Output=o.txt" };
         bad = false;
         break;
      case 23:
         a = { "f.gdx", "Output", "=o.txt", "IDE=1" };
         bad = false;
         break;
      case 24:
         a = { "f.gdx", "Header=" + longer, "Format=csv", "Symb=SYM" };
         bad = false;
         break;
      default:
         a = { "./f.gdx", "FORMAT=NORMAL", "dformat=normal", "filterdef=y", "cdim=n" };
         bad = false;
   }
   string before = readBytes( c.path( "f.gdx" ) );
   Run r = runTool( c, "gdxdump", a );
   CK( ( r.rc != 0 ) == bad, "exit", "exit code %d: %s%s", r.rc, r.out.substr( 0, 200 ).c_str(), r.err.substr( 0, 300 ).c_str() );
   CK( readBytes( c.path( "f.gdx" ) ) == before, "input", "the input file was changed" );
   if( bad ) CK( !( r.out + r.err ).empty(), "message", "no message" );
   else if( k == 24 )
   {
      CsvOpt co;
      co.hasHeader = true;
      co.header = longer;
      o.delim = ',';
      checkCsv( c, f, y, r.out, o, co );
   }
   else
      checkFull( c, f, k == 22 || k == 23 ? readBytes( c.path( "o.txt" ) ) : r.out, o, true, "f.gdx" );
   c.state( mc::hashStr( r.out + r.err ) );
   c.outcome( mc::hashStr( r.out + r.err ) );
   unlink( c.path( "o.txt" ).c_str() );
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P24";
   d.assumptions = { "the tool is linked into the checker (main renamed) and runs in its own process; the generated C interface gdxcc.c/gdxcclib.cpp is the one of the tree, dlopen is answered with the checker's own image", "leading and trailing blanks of symbol texts are not compared", "values containing a period are not combined with the period as CSV delimiter" };
   d.sc = {
           { "values", scValues, 3, "1 symbol: scalar, parameter, variable (10 subtypes), equation (7 subtypes), dim 0..2, 1..2 records x each field x value palette (13 quick / 27 thorough incl. special values, acronyms, 17-digit numbers) x dFormat x FilterDef x DecimalSep" },
           { "quoting", scQuoting, 3, "every string of length 1..4 (thorough 5) over a letter, one kind of quote, a separator and a blank as row label, column label and set text; CSV" },
           { "unlabelled", scUnlabelled, 3, "dim 1..3, 1..2 (3) records over 7 element numbers, 5 of them without label, up to 2e9; listing, CSV, CSV with columns" },
           { "wide", scWide, 3, "dim 1..20 x set/parameter/variable/equation x 0..2 records x 3 kinds of domains x listing, CSV, CSV with columns, NoData, DomainInfo" },
           { "labels", scLabels, 3, "set/parameter/variable of dim 1..2 with 1..2 records over 9 labels with blanks, quotes, separators; set texts from 17 texts; 5 delimiters" },
           { "catalogue", scCatalogue, 3, "0..2 (3) symbols from 9 kinds (sets, parameters, scalars, empty ones, variables, equations, aliases, strict/relaxed domains) x text x comments x 9 views (full, NoData, Symbols, DomainInfo, SymbolsAsSet(DI), version, one symbol with and without header)" },
           { "csv", scCsv, 3, "10 kinds of symbols, dim 0..3, every subset of a 2x3 and a 2x2x2 grid, label/value/text palettes x delimiters x DecimalSep x CDim x CSVAllFields x CSVSetText x header options" },
           { "special-out", scSpecialOut, 3, "all subsets of the 6 replacement strings x listing/CSV x option spelling" },
           { "gamsbas", scGamsbas, 3, "1..2 (3) symbols, 0..2 (one symbol: 0..4) records with zero or non-zero level and marginal x FilterDef" },
           { "tables", scTables, 3, "0..9 labels, 0..3 symbols with texts; set text table and label table views" },
           { "spelling", scSpelling, 3, "3 spellings of FilterDef x 10 values x 4 ways to separate them" },
           { "invocation", scInvocation, 3, "26 command lines: missing and foreign files, unknown symbols, bad, repeated and overlong options, output to a file" },
   };
   return d.main( argc, argv );
}
