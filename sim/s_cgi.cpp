/* CGI form reading (P11) */
#include "util.h"
#include "cgi_func.h"

namespace {
#define F( name) ((decltype( &name))m->sym( #name))
struct Field { std::string name, value, filename, type; bool file = false; };

std::string text( Tape &w, u32 max, bool lines)
{
   static const char pool[] = "abcXYZ019 .-_&=+%#\"';<>/\\?~,:";
   std::string s;
   u32 n = w.choose( max + 1), any = lines ? 0 : w.choose( 8);
   for( u32 i = 0; i < n; i++)
      {
      u32 k = w.choose( (lines ? 34 : 29) + any);
      if( k < 29) s += pool[k];
      else if( lines) s += "\r\n";
      else s += (char)( 1 + w.choose( 255));          /* any byte (UTF-8 text,  tabs...) */
      }
   return s;
}
std::string encode( Tape &w, const std::string &v)
{
   std::string r;
   const bool more = w.chance( 1, 6);           /* characters needing no escape may have one */
   for( unsigned char c : v)
      {
      if( more && w.chance( 1, 8)) r += strf( "%%%02X", c);
      else if( (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-' || c == '_' || c == '.' || c == '~') r += c;
      else if( c == ' ' && w.chance( 3, 4)) r += '+';
      else r += strf( w.chance( 1, 8) ? "%%%02x" : "%%%02X", c);
      }
   return r;
}
std::string trim_nl( const std::string &s)
{
   size_t b = s.size( );
   while( b && (s[b - 1] == 10 || s[b - 1] == 13)) b--;
   return s.substr( 0, b);
}
/* Field 'bad' gets an escape which is none:  '%' and a byte that is no hex digit within the next two. */
std::string urlencoded( Tape &w, const std::vector<Field> &f, int bad)
{
   std::string s;
   for( size_t i = 0; i < f.size( ); i++)
      {
      std::string a = encode( w, f[i].name), b = encode( w, f[i].value);
      if( (int)i == bad)
         {
         static const char *junk[] = { "%zz", "%g1", "%1g", "%:0", "%0:", "%/0", "%3/", "%@1", "%4@", "%G0", "%`5", "%5`", "%-1", "%+1", "%1+", "%%41" };
         (w.chance( 1, 3) ? a : b) += junk[w.choose( 16)];
         }
      s += (i ? "&" : "") + a + "=" + b;
      }
   return s;
}
std::string multipart( const std::vector<Field> &f, const std::string &bnd)
{
   std::string s;
   for( auto &x : f)
      {
      s += "--" + bnd + "\r\nContent-Disposition: form-data; name=\"" + x.name + "\"";
      if( x.file) s += "; filename=\"" + x.filename + "\"\r\nContent-Type: " + x.type;
      s += "\r\n\r\n" + x.value + "\r\n";
      }
   return s + "--" + bnd + "--\r\n";
}
struct Guarded {
   std::vector<char> b;
   size_t n;
   explicit Guarded( size_t n_) : b( n_ + 4096, (char)0x5a), n( n_) { }
   char *p( ) { return b.data( ) + 64; }
   bool intact( ) const
   {
      for( size_t i = 0; i < 64; i++) if( b[i] != 0x5a) return false;
      for( size_t i = 64 + n; i < b.size( ); i++) if( b[i] != 0x5a) return false;
      return true;
   }
};
}

SCENARIO( P11, forms, 1)
{
   Tape &w = sim.w;
   Module *m = get_module( "lib", 0);
   m->restore( );
   sim.stdio_buf = pick( w, { 4096, 1024, 64, 16 });
   enum { GET, POST_URL, POST_MULTI };
   const int how = (int)w.choose( 3);
   const size_t max_data = pick( w, { 4096, 1000, 300, 200, 40000 });
   const bool exact = w.chance( 2, 3);          /* a submission which fits */
   std::vector<Field> f;
   int n = 1 + (int)w.choose( 5);
   std::string bnd = w.chance( 1, 3) ? strf( "----WebKitFormBoundary%08x", w.choose( 1u << 30)) : strf( "%.*s%09u", (int)w.choose( 28), "-----------------------------", w.choose( 1000000000));
   bool fits = true;
   for( int i = 0; i < n; i++)
      {
      Field x;
      static const char *names[] = { "TextArea", "upfile", "radius", "catalog", "year", "obj name", "q", "a_rather_long_field_name_here" };
      x.name = names[w.choose( 8)];
      u32 max_val = (u32)( max_data > 300 ? 240 : max_data - 130);
      if( w.chance( 1, 12)) max_val = (u32)max_data;           /* up to the last byte which fits */
      if( !exact && w.chance( 1, 3)) max_val = (u32)( max_data * 2 > 6000 ? 6000 : max_data * 2);
      x.value = text( w, w.chance( 1, 2) ? max_val / 4 : max_val, how == POST_MULTI);
      if( !exact && w.chance( 1, 5)) x.name = std::string( 20 + w.choose( 120), 'n');
      if( how != POST_MULTI && x.name.find( '=') != std::string::npos) x.name = "q";
      if( how == POST_MULTI)
         {
         if( w.chance( 1, 8) && x.value.size( ) + bnd.size( ) + 20 < max_val)          /* lines which look much like the boundary */
            {
            std::string near = "--" + bnd;
            switch( w.choose( 4))
               {
               case 0: near.resize( w.choose( (u32)near.size( ))); break;
               case 1: near.back( ) = near.back( ) == 'x' ? 'y' : 'x'; break;
               case 2: near = " " + near; break;
               case 3: near = near.substr( 1 + w.choose( 2)); break;
               }
            if( w.chance( 1, 2)) near += "and more";
            if( near.compare( 0, bnd.size( ) + 2, "--" + bnd))
               x.value = (w.chance( 1, 2) ? x.value : trim_nl( x.value) + "\r\n") + near + (w.chance( 1, 2) ? "\r\n" : "") + (w.chance( 1, 2) ? trim_nl( x.value) : "");
            if( x.value.size( ) > max_val) x.value.resize( max_val);
            if( x.value.find( "--" + bnd) != std::string::npos && x.value.find( "\n--" + bnd) != std::string::npos) x.value = "x";
            if( !x.value.compare( 0, bnd.size( ) + 2, "--" + bnd)) x.value = "y";
            }
         if( w.chance( 1, 2)) x.value = trim_nl( x.value);
         if( (x.file = w.chance( 1, 3)))
            {
            x.filename = strf( "f%u.txt", w.choose( 100));
            if( w.chance( 1, 8)) x.filename = std::string( w.choose( (u32)max_data), (char)( 97 + w.choose( 26)));
            x.type = "text/plain";
            if( w.chance( 1, 8)) x.type += "; name=" + std::string( w.choose( (u32)max_data + 10), (char)( 97 + w.choose( 26)));
            }
         }
      if( x.name.size( ) > 29) fits = false;
      if( how != POST_MULTI && x.value.size( ) > max_data - 1) fits = false;
      if( how == POST_MULTI && (x.value.size( ) + bnd.size( ) + 12 > max_data || x.name.size( ) + x.filename.size( ) + 70 > max_data || x.type.size( ) + 20 > max_data)) fits = false;
      f.push_back( x);
      }
   const int bad = how != POST_MULTI && w.chance( 1, 10) ? (int)w.choose( n) : -1;
   if( bad >= 0) sim.count( "fault.bad_escape");
   std::string body = how == POST_MULTI ? multipart( f, bnd) : urlencoded( w, f, bad), in = body;
   bool cut = how != GET && w.chance( 1, 4), bad_env = false;
   if( cut)
      {
      in.resize( w.choose( (u32)in.size( )));
      sim.count( "fault.connection_lost");
      }
   else if( how == POST_URL && w.chance( 1, 4)) in += "\r\n";
   std::map<std::string, std::string> env;
   if( how == GET) { env["QUERY_STRING"] = body; env["REQUEST_METHOD"] = "GET"; }
   else
      {
      if( w.chance( 1, 2)) env["QUERY_STRING"] = "";
      env["REQUEST_METHOD"] = "POST";
      env["CONTENT_TYPE"] = how == POST_URL ? "application/x-www-form-urlencoded" : "multipart/form-data; boundary=" + bnd;
      env["CONTENT_LENGTH"] = strf( "%zu", body.size( ));
      switch( w.choose( 14))
         {
         case 1: env.erase( "CONTENT_LENGTH"); bad_env = true; break;
         case 2: env["CONTENT_LENGTH"] = "0"; bad_env = true; break;
         case 3: env.erase( "CONTENT_TYPE"); bad_env = true; break;
         case 4: env["CONTENT_TYPE"] = "text/plain"; bad_env = true; break;
         case 5: env["CONTENT_LENGTH"] = "-1"; bad_env = true; break;
         case 6: env["CONTENT_LENGTH"] = "2147483647"; bad_env = true; break;
         case 7: env["CONTENT_LENGTH"] = strf( "%zu", in.size( ) + 1 + w.choose( 50)); bad_env = how == POST_URL && (in.empty( ) || in.back( ) != '\n'); break;
         default: break;
         }
      if( bad_env) sim.count( "fault.bad_environment");
      }
   sim.fault.read_short = on_off( w, 1, 2, 400000);
   sim.fault.read_eio = on_off( w, 1, 4, 40000);
   sim.fault.alloc_fail = on_off( w, 1, 4, 250000);
   sim.fault.budget = 1 + (int)w.choose( 2);
   sim.sample = strf( "%s, %d fields, %zu bytes of %zu, buffer %zu%s", how == GET ? "GET" : how == POST_URL ? "POST urlencoded" : "POST multipart", n, in.size( ), body.size( ), max_data, bad_env ? ", bad environment" : "");
   int reps = 1 + (int)w.choose( 2);
   std::vector<Field> got;
   int rv0 = 0, rv_end = 0;
   bool with_filename = w.chance( 1, 2), overrun = false, unterminated = false;
   long leaked = 0;
   const bool again = w.chance( 1, 3);
   bool after_end = false;
   sim.ev( "request %016llx", (unsigned long long)hash_str( body));
   Proc *p = sim.spawn( "cgi", m, [&]( ) -> int {
      rv0 = F( initialize_cgi_reading)( );
      sim.ev( "initialize -> %d", rv0);
      for( int i = 0; i < 50; i++)
            {
            Guarded fld( 30), data( max_data), fn( max_data);
            memset( fld.p( ), '~', 30);
            memset( data.p( ), '~', max_data);
            memset( fn.p( ), '~', max_data - 1);
            fn.p( )[max_data - 1] = 0;
            int rv = F( get_cgi_data)( fld.p( ), data.p( ), with_filename ? fn.p( ) : NULL, max_data);
            sim.ev( "get -> %d", rv);
            if( !fld.intact( ) || !data.intact( ) || !fn.intact( )) { overrun = true; break; }
            if( rv) { rv_end = rv; break; }
            if( !memchr( fld.p( ), 0, 30) || !memchr( data.p( ), 0, max_data)) { unterminated = true; break; }
            Field x;
            x.name = fld.p( );
            x.value = data.p( );
            x.filename = fn.p( );
            got.push_back( x);
            }
      for( int i = 0; i < reps; i++) F( free_cgi_data)( );
      if( again)
         {
         Guarded fld( 30), data( max_data), fn( max_data);
         if( !F( get_cgi_data)( fld.p( ), data.p( ), fn.p( ), max_data)) after_end = true;
         if( !fld.intact( ) || !data.intact( ) || !fn.intact( )) overrun = true;
         }
      leaked = g_sim->cur->live_allocs;
      return 0;
   });
   p->in = in;
   p->env = env;
   sim.run( );
   if( !p->clean( )) { sim.violate( "crash", p->describe( )); return; }
   if( p->mem_error) sim.violate( "memory", p->mem_note);
   if( overrun) { sim.violate( "overrun", "wrote outside the caller's buffers"); return; }
   if( unterminated) { sim.violate( "unterminated", "success without a value"); return; }
   if( leaked) sim.violate( "leak", strf( "%ld blocks left after free_cgi_data", leaked));
   if( bad_env && rv0 > 0) sim.violate( "bad-environment-accepted", strf( "initialize_cgi_reading gave %d", rv0));
   if( after_end) sim.violate( "data-after-the-end", "get_cgi_data gave a field after free_cgi_data");
   if( rv0 <= 0 && !got.empty( )) sim.violate( "data-without-request", strf( "initialize_cgi_reading gave %d,  yet %zu fields were read", rv0, got.size( )));
   if( bad >= 0 && got.size( ) > (size_t)bad) sim.violate( "bad-escape-accepted", strf( "field %d has a malformed escape,  yet was read as '%s'", bad, got[bad].value.substr( 0, 60).c_str( )));
   bool clean = !p->n_hard_faults && !bad_env && !cut && fits && bad < 0;
   if( got.size( ) > f.size( )) sim.violate( "extra-field", strf( "%zu fields read, %zu sent", got.size( ), f.size( )));
   for( size_t i = 0; i < got.size( ) && i < f.size( ); i++)
      {
      std::string a = got[i].value, b = f[i].value;
      if( how == POST_MULTI)
         {
         b = trim_nl( b);
         if( f[i].file && !a.compare( 0, 2, "\r\n")) a.erase( 0, 2);      /* the blank line after the part's headers */
         if( f[i].file && f[i].value.find_first_not_of( "\r\n") == std::string::npos) a = trim_nl( a);
         }
      if( got[i].name != f[i].name || a != b)
         sim.violate( "wrong-field", strf( "field %zu: got %s='%s', sent %s='%s'", i, got[i].name.c_str( ), a.substr( 0, 60).c_str( ), f[i].name.c_str( ), b.substr( 0, 60).c_str( )));
      if( with_filename && got[i].filename != f[i].filename)
         sim.violate( "wrong-filename", "got '" + got[i].filename + "', sent '" + f[i].filename + "'");
      }
   if( clean && (rv0 <= 0 || got.size( ) != f.size( ) || !rv_end))
      sim.violate( "fields-missing", strf( "%zu of %zu fields read (initialize %d, last %d)", got.size( ), f.size( ), rv0, rv_end));
   if( !clean && got.size( ) < f.size( )) sim.count( "probe.reported_incomplete");
   if( n > 1) sim.nontrivial = true;
}
