From 9f6fe9b86e03fc5faae0bc060a2397ff8eb53b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 001/193] fix: row::power recursed for ever on rows of large
 order

Reducing the exponent modulo the order does not make it smaller than the
square of the number of bells when the order itself is larger than that,
as it can be on 19 or more bells.
---
 ringing/row.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index 61440fb..ffcb7e2 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -523,7 +523,7 @@ row row::power( int n ) const
     return row(b);
   else if (n < 0)
     return inverse().power( -n );
-  else if (n > b*b) 
+  else if (n > b*b && n >= order()) 
     // Only do this optimisation if n is large as order() is expensive
     return power( n % order() );
   else if (n % 2)
-- 
2.43.0


From e0cc3aa6ed0e5f7e7822b1a3cc5088f2fa6033e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 002/193] fix: conjugate rows on more than 33 bells

The cycles were compared and reassembled as text, but bells above the
33rd have no symbol of their own, so conjugator() threw bell::invalid.
---
 ringing/row.cpp | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index ffcb7e2..78f0cb0 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -626,45 +626,53 @@ row_block& row_block::recalculate(int start)
 
 RINGING_START_ANON_NAMESPACE
 
+typedef vector<bell> cycle;
+
 struct cycle_cmp {
-  bool operator()( string const& x, string const& y ) const { 
+  bool operator()( cycle const& x, cycle const& y ) const { 
     return x.size() < y.size();
   }
 };
 
 struct cycle_eq {
-  bool operator()( string const& x, string const& y ) const { 
+  bool operator()( cycle const& x, cycle const& y ) const { 
     return x.size() == y.size();
   }
 };
 
-vector<string> conjugacy_class_vector( row const& r )
+// This works with bells rather than the string from row::cycles() because 
+// not every bell has a symbol.
+vector<cycle> conjugacy_class_vector( row const& r )
 {
-  string c = r.cycles();
-  vector<string> v;  v.reserve( c.size() - r.bells() + 1 );
+  vector<cycle> v;  v.reserve( r.num_cycles() );
+  vector<bool> done( r.bells(), false );
 
-  size_t i = 0;
-  for ( size_t j; (j = c.find(',', i)) != string::npos; i=j+1)
-    v.push_back( c.substr(i, j-i ) );
-  v.push_back( c.substr(i, c.size()-i) );
+  for ( int i=0; i < r.bells(); ++i )
+    if ( !done[i] ) {
+      v.push_back( cycle() );
+      for ( int j=i; !done[j]; j=r[j] ) {
+        done[j] = true;
+        v.back().push_back(j);
+      }
+    }
 
   sort( v.begin(), v.end(), cycle_cmp() );
   return v;
 }
 
-bool are_conjugate_impl( vector<string> const& xc, vector<string> const& yc )
+bool are_conjugate_impl( vector<cycle> const& xc, vector<cycle> const& yc )
 {
   return xc.size() == yc.size() && 
     equal( xc.begin(), xc.end(), yc.begin(), cycle_eq() );
 }
 
-row cycles_as_row( vector<string> const& rc )
+row cycles_as_row( vector<cycle> const& rc )
 {
-  string s;
-  for ( vector<string>::const_iterator i=rc.begin(), e=rc.end(); i!=e; ++i )
-    s += *i;
+  vector<bell> r;
+  for ( vector<cycle>::const_iterator i=rc.begin(), e=rc.end(); i!=e; ++i )
+    r.insert( r.end(), i->begin(), i->end() );
 
-  return row(s);
+  return row(r);
 }
 
 RINGING_END_ANON_NAMESPACE
@@ -685,8 +693,8 @@ bool are_conjugate( row const& x, row const& y )
 //
 row conjugator( row const& x, row const& y )
 {
-  const vector<string> xc( conjugacy_class_vector(x) ),
-                       yc( conjugacy_class_vector(y) );
+  const vector<cycle> xc( conjugacy_class_vector(x) ),
+                      yc( conjugacy_class_vector(y) );
 
   if ( are_conjugate_impl(xc, yc) )
     return cycles_as_row(xc) * cycles_as_row(yc).inverse();
-- 
2.43.0


From f588716a1ac3aaead9ad07e08202b98dee4039ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 003/193] fix: row_block wrote past its end when it holds no
 rows

Half a lead of a single change, without the lead head, has no rows.
---
 ringing/row.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index 78f0cb0..efca40e 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -600,7 +600,7 @@ static size_t row_block_base_size(vector<change> const& c, int flags)
 row_block::row_block(const vector<change> &c, int flags) 
   : vector<row>( row_block_base_size(c, flags) ), ch(c), flags(flags)
 {
-  if (ch.size()) {
+  if (size() && ch.size()) {
     (*this)[0] = row::rounds(ch[0].bells());
     recalculate();
   }
-- 
2.43.0


From b592ea50fdcf2f8330b1811c16248ae3062dbe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 004/193] fix: reading a row at the end of a stream set failbit

Peeking a second time once the end of the stream had been reached failed,
so the last row of a stream that did not end in a newline was lost.
---
 ringing/row.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index efca40e..d695aba 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -560,7 +560,10 @@ RINGING_API istream& operator>>(istream& i, row& r)
     vector<bell> bells;  
     bells.reserve(r.bells()); // The only hint we might have available
 
-    while ( i && ( bell::is_symbol( i.peek() ) || i.peek() == '{' ) ) {
+    while ( i ) {
+      // Only peek once as peeking again at the end of the stream makes it fail
+      int const c = i.peek();
+      if ( !bell::is_symbol(c) && c != '{' ) break;
       bell b;  
       i >> noskipws >> b;
       bells.push_back(b);
-- 
2.43.0


From bb7fb36016b405499a523c030b32502c8033c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 005/193] fix: the NUL character was read as a bell

strchr finds the terminator of the list of symbols, so reading a bell from
an empty string gave a bell one beyond the last symbol, and left the end
pointer beyond the end of the string.
---
 ringing/bell.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ringing/bell.cpp b/ringing/bell.cpp
index 1df6691..7ab0db2 100644
--- a/ringing/bell.cpp
+++ b/ringing/bell.cpp
@@ -96,6 +96,7 @@ bell::invalid::invalid()
 bool bell::is_symbol(char c)
 {
   if ( bells_case_mapper ) c = bells_case_mapper(c);
+  if ( c == '\0' ) return false;  // strchr would find the terminator
   if ( strchr(symbols, c) ) return true;
 
   // I/1 and O/0 ambiguities:
@@ -113,7 +114,8 @@ bell bell::read_char(char c)
 {
   if ( bells_case_mapper ) c = bells_case_mapper(c);
   bell b;
-  if ( char const* cp = strchr(symbols, c) )
+  char const* const cp = c ? strchr(symbols, c) : NULL;
+  if ( cp )
     b.x = cp - symbols;
   else {
     // I/1 and O/0 ambiguities:
-- 
2.43.0


From a9831b6533a514b4fa62001af5824db38d3f1d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 006/193] fix: {0} and {} were read as bell 256

Bells are numbered from 1, so the bell number 0 is not valid; subtracting 1
from it wrapped around.
---
 ringing/bell.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ringing/bell.cpp b/ringing/bell.cpp
index 7ab0db2..a01b95d 100644
--- a/ringing/bell.cpp
+++ b/ringing/bell.cpp
@@ -146,7 +146,7 @@ bell bell::read_extended(char const* str, char const** endp)
   } else {
     unsigned long val = strtoul(++str, const_cast<char**&>(endp), 10);
     while (isspace(**endp)) ++*endp;
-    if ( *str == '-' || **endp != '}' ||
+    if ( *str == '-' || **endp != '}' || val == 0 ||
          RINGING_BELL_BITS < sizeof(unsigned long) * CHAR_BIT
          && val > (1ul<<RINGING_BELL_BITS) )
 #if RINGING_USE_EXCEPTIONS
@@ -179,8 +179,8 @@ RINGING_API istream& operator>>(istream& i, bell& b)
         b.from_char( (char) i.get() );
       else {
         i.get(); // drop the '{'
-        unsigned long val;  i >> noskipws >> val;
-        if ( i.get() != '}' ||
+        unsigned long val = 0;  i >> noskipws >> val;
+        if ( i.get() != '}' || val == 0 ||
              RINGING_BELL_BITS < sizeof(unsigned long) * CHAR_BIT
              && val > (1ul<<RINGING_BELL_BITS) )
 #if RINGING_USE_EXCEPTIONS
-- 
2.43.0


From b9261a0786d3f4b39e463adb04b89165e4494478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 007/193] fix: a failed read of a row could still store a row

When one of the bells was invalid it was replaced by the treble.
---
 ringing/row.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index d695aba..1140ed0 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -569,7 +569,9 @@ RINGING_API istream& operator>>(istream& i, row& r)
       bells.push_back(b);
     }
 
-    if ( bells.empty() )
+    if ( i.fail() )
+      ;  // One of the bells was invalid
+    else if ( bells.empty() )
       i.setstate( ios_base::failbit ); 
     else {
 #if RINGING_USE_EXCEPTIONS 
-- 
2.43.0


From a5aad1fd2b0d0eb6f6f984ee8264f0cb75289929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 008/193] fix: change::swappair read beyond its list of swaps

When the swap it replaced was the last one, it went on to look at the one
after it, and could erase past the end of the list.
---
 ringing/change.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/change.cpp b/ringing/change.cpp
index 4f4f170..c52e6ba 100644
--- a/ringing/change.cpp
+++ b/ringing/change.cpp
@@ -180,7 +180,8 @@ bool change::swappair(bell which)
     if(*s == which - 1) { // The swap before it is there. Replace it
                           // with our new swap.
       *s++ = which;
-      if(*s == which + 1) // The swap after it is there too. Take it out.
+      if(s != swaps.end() &&
+         *s == which + 1) // The swap after it is there too. Take it out.
         swaps.erase(s);
       return true;
     }
-- 
2.43.0


From 962b59a4956e71d868f69292b806282d17cf5fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 009/193] fix: lcm overflowed although its result fits in an
 int

---
 ringing/mathutils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/mathutils.h b/ringing/mathutils.h
index d240f44..3907fc7 100644
--- a/ringing/mathutils.h
+++ b/ringing/mathutils.h
@@ -53,7 +53,7 @@ inline RINGING_API int lcm(int a, int b)
   // Check for a couple of quick cases
   if(a == 1) return b;
   if(b == 1) return a;
-  return a * b / hcf(a,b);
+  return a / hcf(a,b) * b;  // In this order so that it does not overflow
 }
 
 RINGING_API unsigned factorial(unsigned n);
-- 
2.43.0


From 67109c22ded6ac10d6ef904baa95085ead43d94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 010/193] fix: reading {n} in place notation looked beyond the
 end of the text

The depth of the braces was counted by looking at *last, which need not be
dereferenceable, instead of the current character.
---
 ringing/place_notation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/place_notation.h b/ringing/place_notation.h
index 03d3c38..2fc89b1 100644
--- a/ringing/place_notation.h
+++ b/ringing/place_notation.h
@@ -97,7 +97,7 @@ ForwardIterator read_bell_expr(ForwardIterator first, ForwardIterator last) {
     for ( int depth = 0; first < last && !(*first == '}' && depth == 0);
           ++first ) {
       if (*first == '{') ++depth;
-      else if (*last == '}') --depth;
+      else if (*first == '}') --depth;
     }
     if ( first == last || *first != '}') throw bell::invalid();
     ++first;
-- 
2.43.0


From 8b031b7af2700e3c3b84b1042de67758d5f2bbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 011/193] fix: formatting an empty method without its lead head

The number of changes to write wrapped around.
---
 ringing/method.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index b3238ef..4c744b6 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -632,7 +632,8 @@ string method::format( int flags ) const
   } else {
     if (flags & M_PLUS) out += '+';
     do_compressed_section( out, *this, 0, 
-                           size() - ( (flags & M_OMIT_LH) ? 1 : 0 ),  flags );
+                           size() - ( (flags & M_OMIT_LH) && size() ? 1 : 0 ),
+                           flags );
   }
 
   return out;
-- 
2.43.0


From a4f69e0476a3c8d49ade63afd06b7c833ed18273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 012/193] fix: maxblows was -1 for a method in which no places
 are made

---
 ringing/method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index 4c744b6..fc9383d 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -642,7 +642,7 @@ string method::format( int flags ) const
 // Counts the maximum number of consecutive blows in one place
 int method::maxblows(void) const
 {
-  int maxn = 0;
+  int maxn = 2;
 
   for ( const_iterator b(begin()), i(b), e(end()); i != e; ++i )
     for ( int p(0); p < bells(); ++p )
-- 
2.43.0


From 1ecd7e8886a6b65a463ff8b05c00d59f97a61f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 013/193] fix: methclass read beyond the lead head of
 principles and of rounds

---
 ringing/method.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index fc9383d..0c254d4 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -304,13 +304,13 @@ int method::methclass(int year) const
 
   // Set hb to be the first hunt bell, or hb=n if there is none
   bell hb;
-  for (hb = 0; lhr[hb] != hb && hb < n; ++hb)
+  for (hb = 0; hb < n && lhr[hb] != hb; ++hb)
     ;
   
   // Set wb to be the size of the first set of working bells    
   int wb = 0;
   { int i;
-    for (i = 0; lhr[i] == i && i < n; ++i)
+    for (i = 0; i < n && lhr[i] == i; ++i)
       ;
     if (i < n) 
       wb = lhr.cycle_size(i);
-- 
2.43.0


From 90ea2b0ab961ceec23ff415fee2bb955e0f28ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 014/193] fix: set_untitled ignored all but its first use

---
 ringing/method.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index 0c254d4..0399e7a 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -106,7 +106,8 @@ const char *method::txt_double       = "Double";
 const char *method::txt_little       = "Little";
 
 void method::set_untitled(string const& str) {
-  static string str_untitled = str;
+  static string str_untitled;
+  str_untitled = str;
   txt_untitled = str_untitled.c_str();
 }
 
-- 
2.43.0


From 58cbb6ce8f11f52eb33d06f466ed290793937733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 015/193] fix: position_in_extent read beyond the end of a
 short row

---
 ringing/extent.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/extent.cpp b/ringing/extent.cpp
index 5ae46dc..78a7a5d 100644
--- a/ringing/extent.cpp
+++ b/ringing/extent.cpp
@@ -104,10 +104,10 @@ position_in_extent( row const& r, unsigned nw, unsigned nh, unsigned nt )
 
   if (b > nt) 
     throw out_of_range( "Row has too many bells" );
-  for ( size_t i=0; i<nh; ++i )
+  for ( size_t i=0; i<nh && i<b; ++i )
     if ( r[i] != i )
       throw out_of_range( "Row does not have fixed trebles" );
-  for ( size_t i=nh+nw; i<nt; ++i )
+  for ( size_t i=nh+nw; i<nt && i<b; ++i )
     if ( r[i] != i )
       throw out_of_range( "Row does not have fixed tenors" );
 
-- 
2.43.0


From 934719c8bdf6fb83886a2889e62a7ce8f7de44fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 016/193] fix: rows and sizes of extents on 13 or more working
 bells overflowed

---
 ringing/extent.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ringing/extent.cpp b/ringing/extent.cpp
index 78a7a5d..a25d94b 100644
--- a/ringing/extent.cpp
+++ b/ringing/extent.cpp
@@ -123,6 +123,18 @@ position_in_extent( row const& r, unsigned nw, unsigned nh, unsigned nt )
   return x;
 }
 
+RINGING_START_ANON_NAMESPACE
+
+// The result of factorial() overflows at 13
+size_t extent_size( unsigned n )
+{
+  size_t f = 1;
+  for ( unsigned i=2; i<=n; ++i ) f *= i;
+  return f;
+}
+
+RINGING_END_ANON_NAMESPACE
+
 RINGING_API row
 nth_row_of_extent( size_t n, unsigned nw, unsigned nh, unsigned nt )
 {
@@ -131,7 +143,7 @@ nth_row_of_extent( size_t n, unsigned nw, unsigned nh, unsigned nt )
   for ( unsigned i=0; i<nh; ++i ) v[i] = i;
   for ( unsigned i=nh; i<nw+nh; ++i )
   {
-    size_t const fact = factorial(nw + nh - i - 1);
+    size_t const fact = extent_size(nw + nh - i - 1);
     bell b = n / fact + nh; n %= fact;
      
     for ( bell ob(nh); ob <= b; ++ob )
@@ -181,7 +193,7 @@ size_t extent::operator[]( row r ) const
 
 size_t extent::size() const
 {
-  return factorial(nw); 
+  return extent_size(nw); 
 }
 
 
-- 
2.43.0


From cb8e16b697ddf8cbccbe680fbcc3a5ffd2e0176c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 017/193] fix: an extent_iterator stepped back from the end was
 still at the end

---
 ringing/extent.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/extent.cpp b/ringing/extent.cpp
index a25d94b..4eb3940 100644
--- a/ringing/extent.cpp
+++ b/ringing/extent.cpp
@@ -69,6 +69,7 @@ extent_iterator &extent_iterator::operator++()
 extent_iterator &extent_iterator::operator--()
 {
   if (end_) { // back rounds on working bells
+    end_ = false;
     vector<bell> v(nt);
     for ( unsigned i=0; i<nh; ++i ) v[i] = i;
     for ( unsigned i=nh; i<nw+nh; ++i ) v[i] = nw+nh-1 - i + nh;
-- 
2.43.0


From 313560f3995d85821072db82f4584470f140acc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 018/193] fix: dihedral_r was cyclic for even numbers of bells

---
 ringing/group.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ringing/group.cpp b/ringing/group.cpp
index 4bf2630..d187c2a 100644
--- a/ringing/group.cpp
+++ b/ringing/group.cpp
@@ -135,7 +135,11 @@ group group::dihedral_c(int nw, int nh, int nt)
 group group::dihedral_r(int nw, int nh, int nt)
 {
   if (!nt) nt = nh + nw;
-  return group( row::pblh(nh+nw, nh), row::reverse_rounds(nw, nh, nt) );
+  // Reverse rounds is a power of the lead head if nw is even, so use the 
+  // reflection of the cycle which fixes its first bell.
+  change c(nt);
+  for ( int i=nh+1; i+1 < nh+nw; i += 2 ) c.swappair(i);
+  return group( row::pblh(nh+nw, nh), row(nt) * c );
 }
 
 group group::cyclic_c(int nw, int nh, int nt)
-- 
2.43.0


From 46ddf1ae4760176dd950467e61d55c2177898d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 019/193] fix: a branch of a false prover claimed to be true

---
 ringing/proof.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/proof.cpp b/ringing/proof.cpp
index 4405f39..84bf1bc 100644
--- a/ringing/proof.cpp
+++ b/ringing/proof.cpp
@@ -177,6 +177,7 @@ prover::create_branch( shared_pointer<prover> const& chain )
   p->chain      = chain;
   p->max_occurs = chain->max_occurs;
   p->lineno     = chain->lineno;
+  p->falsec     = chain->falsec;
   p->dups       = chain->dups;
   p->fi         = chain->fi;
   // NB do not copy chain->m.
-- 
2.43.0


From 714850806d39e9d3b590ac2eef6685b397cc835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 020/193] fix: prover missed lines from branches in failinfo,
 and put others out of order

---
 ringing/proof.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ringing/proof.cpp b/ringing/proof.cpp
index 84bf1bc..239b9ba 100644
--- a/ringing/proof.cpp
+++ b/ringing/proof.cpp
@@ -80,9 +80,8 @@ bool prover::add_row( const row &r )
 
   range const& rng = ranges.back();
 
-  mmap::iterator i( m.insert( rng.first == m.begin() ? m.begin() 
-			                             : prior( rng.first ),
-			      mmap::value_type( r, ++lineno ) ) );
+  // Insert after any existing instances, so that they stay in order.
+  mmap::iterator i( m.insert( rng.second, mmap::value_type( r, ++lineno ) ) );
 
   if ( n > 1 )
     ++dups; 
@@ -109,8 +108,10 @@ bool prover::add_row( const row &r )
 	  // in this range, we explicitly add it by hand afterwards.
 	  l._row = r;
 	  bool added_i = false;
+	  for ( list<range>::const_iterator ri = ranges.begin(), 
+		  re = ranges.end(); ri != re; ++ri )
 	  {
-	    for ( mmap::iterator j = rng.first; j != rng.second; ++j )
+	    for ( mmap::iterator j = ri->first; j != ri->second; ++j )
 	      {
 		if ( j == i ) added_i = true;
 		l._lines.push_back( j->second );
-- 
2.43.0


From c8e240ae277113d952822974650d63509d357e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 021/193] fix: prover::remove_row left rows in failinfo which
 are no longer false

---
 ringing/proof.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/proof.cpp b/ringing/proof.cpp
index 239b9ba..3866813 100644
--- a/ringing/proof.cpp
+++ b/ringing/proof.cpp
@@ -164,7 +164,8 @@ void prover::remove_row( const row& r )
 	    if ( j->_row == r )
 	      {
 		j->_lines.pop_back(); 
-                if ( j->_lines.empty() ) fi->erase(j);
+                // It no longer occurs too often?
+                if ( (int) n - 1 <= max_occurs ) fi->erase(j);
                 break;
 	      }
         }
-- 
2.43.0


From c4c3f66c2b1402e75024e10f51e4a7209371ee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 022/193] fix: proof stopped at the first false row even when
 asked for them all

---
 ringing/proof.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ringing/proof.h b/ringing/proof.h
index 0ac162d..fcf0982 100644
--- a/ringing/proof.h
+++ b/ringing/proof.h
@@ -248,10 +248,11 @@ bool proof<RowIterator>::prove(RowIterator true_first,
 {
   scoped_pointer<prover> p( qp ? new prover(max) : new prover(where, max) );
   istrue = true;
+  where.clear();
   for ( ; true_first != true_last && (!qp || istrue) ; ++true_first )
-    istrue = istrue && p->add_row( *true_first );
+    istrue = p->add_row( *true_first ) && istrue;
   for ( ; unknown_first != unknown_last && (!qp || istrue) ; ++unknown_first )
-    istrue = istrue && p->add_row( *unknown_first );
+    istrue = p->add_row( *unknown_first ) && istrue;
   return istrue;
 }
 
-- 
2.43.0


From d8844196dd8b0bbecd05cea83c73aa75f75fe5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 023/193] fix: proof's constructors used its failinfo before
 constructing it

---
 ringing/proof.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/proof.h b/ringing/proof.h
index fcf0982..0171f27 100644
--- a/ringing/proof.h
+++ b/ringing/proof.h
@@ -228,8 +228,9 @@ public:
   int operator!() const { return !istrue; }
 
 private:
-  bool istrue;                   // Well, is it true or not?
+  // The constructors rely on these being in this order.
   failinfo where;                // Details of where it failed.
+  bool istrue;                   // Well, is it true or not?
 }; 
 
 /******************************************
-- 
2.43.0


From 13b0c870e39cfad1bf247534c4d6c6c052dc1c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 024/193] fix: falseness tables did not initialise or swap
 everything in them

---
 ringing/falseness.cpp | 4 ++--
 ringing/falseness.h   | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/ringing/falseness.cpp b/ringing/falseness.cpp
index 5a24bfd..d4ff63b 100644
--- a/ringing/falseness.cpp
+++ b/ringing/falseness.cpp
@@ -63,7 +63,7 @@ static bool are_tenors_together( const row &r, int working_bells )
 }
 
 falseness_table::falseness_table()
-  : t(1, row())
+  : t(1, row()), flags(0)
 {}
 
 void falseness_table::init( vector<row> const& m1, vector<row> const& m2 )
@@ -153,7 +153,7 @@ group falseness_table::generate_group() const
 }
 
 false_courses::false_courses()
-  : t(1, row())
+  : t(1, row()), flags(0)
 {}
 
 
diff --git a/ringing/falseness.h b/ringing/falseness.h
index 304910c..eda9048 100644
--- a/ringing/falseness.h
+++ b/ringing/falseness.h
@@ -74,7 +74,8 @@ public:
   falseness_table( const vector<row> &a, const vector<row> &b, int flags = 0 );
 
   // Assignment and swapping
-  void swap( falseness_table &other ) { t.swap( other.t ); }
+  void swap( falseness_table &other ) 
+    { t.swap( other.t ); int f(flags); flags = other.flags; other.flags = f; }
 
   // Iterators
   typedef row value_type;
@@ -113,7 +114,9 @@ public:
   false_courses( const method &m, int flags = 0 );
 
   // Assignment and swapping
-  void swap( false_courses &other ) { t.swap( other.t ); }
+  void swap( false_courses &other ) 
+    { t.swap( other.t ); int f(flags); flags = other.flags; other.flags = f; 
+      lh.swap( other.lh ); }
 
   // Iterators
   typedef row value_type;
-- 
2.43.0


From a8a2d1548a7984e0597ca0f071009a31a684e32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 025/193] fix: half lead falseness tables used only a quarter
 of each lead

---
 ringing/falseness.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ringing/falseness.cpp b/ringing/falseness.cpp
index d4ff63b..b018b29 100644
--- a/ringing/falseness.cpp
+++ b/ringing/falseness.cpp
@@ -75,9 +75,8 @@ void falseness_table::init( vector<row> const& m1, vector<row> const& m2 )
 
   set<row> fs;
 
-  vector<row>::const_iterator const
-    e1( flags & half_lead_only ?  m1.begin() + m1.size() / 2 : m1.end() ),
-    e2( flags & half_lead_only ?  m2.begin() + m2.size() / 2 : m2.end() );
+  // If we only want half-leads, that is all m1 and m2 contain.
+  vector<row>::const_iterator const e1( m1.end() ), e2( m2.end() );
 
   for ( vector<row>::const_iterator i1( m1.begin() ); i1 != e1; ++i1 )
     {
-- 
2.43.0


From d93e166ac193cc1e4bceed51cbdc2fb0300e14b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 026/193] fix: false_courses never ended if a course had no
 course head

---
 ringing/falseness.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ringing/falseness.cpp b/ringing/falseness.cpp
index b018b29..745f4cf 100644
--- a/ringing/falseness.cpp
+++ b/ringing/falseness.cpp
@@ -177,9 +177,14 @@ public:
 	row c( lead * f );
 	lead *= fc.lh;
 	      
-	// Transpose to the course head
-	while ( c[ f.bells() - 1 ] != f.bells() - 1 ) 
+	// Transpose to the course head, if the course has one
+	row const c0( c );
+	while ( c[ f.bells() - 1 ] != f.bells() - 1 ) {
 	  c *= fc.lh;
+	  if ( c == c0 ) break;
+	}
+	if ( c[ f.bells() - 1 ] != f.bells() - 1 ) 
+	  continue;
 	      
 	if ( ( fc.flags & in_course_only ) && c.sign() == -1 )
 	  continue;
-- 
2.43.0


From 82ad7d2aa3dfc40616deb13a3a918e74540eecf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 027/193] fix: the number of rows matching a pattern was wrong
 for many patterns

---
 ringing/row_wildcard.cpp | 450 +++++++++++----------------------------
 ringing/row_wildcard.h   |  16 +-
 2 files changed, 127 insertions(+), 339 deletions(-)

diff --git a/ringing/row_wildcard.cpp b/ringing/row_wildcard.cpp
index 2594ff2..8208b87 100644
--- a/ringing/row_wildcard.cpp
+++ b/ringing/row_wildcard.cpp
@@ -27,8 +27,10 @@
 #include <ringing/row_wildcard.h>
 #include <ringing/bell.h>
 
+#include <map>
 #include <string>
-#include <cassert>
+#include <utility>
+#include <vector>
 
 RINGING_START_NAMESPACE
 
@@ -66,172 +68,6 @@ bool row_wildcard::set_bells( unsigned bells )
   return true;
 }
 
-RINGING_START_ANON_NAMESPACE
-
-// Count 1 for each '?', bell symbol, or [...]; and none for a '*'.
-unsigned int count_bells(const string &s)
-{
-  unsigned int total = 0;
-  string::const_iterator i;
-  bool in_brackets = false;
-  for (i = s.begin(); i != s.end(); i++)
-    {
-      if (*i == '?')
-	{
-	  total++;
-	}
-      else if (*i == '[')
-	{
-	  in_brackets = true;
-	}
-      else if (*i == ']')
-	{
-	  total++; // [...] = 1 bell.
-	  in_brackets = false;
-	}
-      else if ( !in_brackets && bell::is_symbol(*i) )
-	{
-	  total++;
-	}
-    }
-  return total;
-}
-
-string expand_star( string const& src, unsigned star_pos, unsigned count )
-{
-  string expanded( src, 0, star_pos );
-  expanded.append( count, '?' );
-  expanded.append( src, star_pos + 1, src.size() - star_pos - 1);
-  return expanded;
-}
-
-RINGING_END_ANON_NAMESPACE
-
-void row_wildcard::copy_choices( string& dest, 
-                                 string const& src, unsigned& pos ) const
-{
-  assert( src[pos] == '[' );
-  unsigned p_end = src.find( ']', pos );
-  if ( p_end == string::npos ) 
-    RINGING_THROW_OR_EXPR( 
-      row_wildcard::invalid_pattern( pat, "Missing ]" ),
-      p_end = src.size()-1 );
-
-  dest.append( src, pos, p_end-pos+1 );
-  pos = p_end;
-}
-
-bool row_wildcard::copy_if_choices_contains( string& dest, 
-                                             string const& src, unsigned& pos,
-                                             char sym ) const
-{
-  assert( src[pos] == '[' );
-  unsigned p_end = src.find( ']', pos );
-  if ( p_end == string::npos ) 
-    RINGING_THROW_OR_EXPR( 
-      row_wildcard::invalid_pattern( pat, "Missing ]" ),
-      p_end = src.size()-1 );
-
-  unsigned p_sym = src.find( sym, pos );
-  if ( p_sym > p_end ) return false;
-  dest += sym;
-  pos = p_end;
-  return true;
-}
-
-bool row_wildcard::copy_choices_intersection( string& dest, 
-                                              string const& a, unsigned& ai,
-                                              string const& b, unsigned& bi )
-                                                                         const
-{
-  assert( a[ai] == '[' && b[bi] == '[' );
-  dest += '['; 
-
-  unsigned b_init = bi;
-  bool had_one = false;
-  for ( ++ai; a[ai] != ']'; ++ai ) {
-    bi = b_init;
-    if ( copy_if_choices_contains( dest, b, bi, a[ai] ) ) 
-      had_one = true;
-  }
-
-  dest += ']';
-  return had_one;
-}
-
-
-// This is not a general purpose intersection function -- it only 
-// parses A and B up to the first '*' and assumes that they are 
-// identical after that.  Returns false if the intersection is
-// necessarily zero.
-bool row_wildcard::make_intersection( string& dest, 
-                                      string const& a, string const& b ) const
-{
-  unsigned ai = 0, bi = 0;
-  unsigned an = a.find('*'), bn = b.find('*');
-  assert( an != string::npos && bn != string::npos );
-  assert( a.substr(an) == b.substr(bn) );
-
-  while ( ai != an || bi != bn ) 
-  {
-    bool a_wild = ( a[ai] == '*' || a[ai] == '?' );
-    bool b_wild = ( b[bi] == '*' || b[bi] == '?' );
-
-    bool a_bell = bell::is_symbol( a[ai] );
-    bool b_bell = bell::is_symbol( b[bi] );
-
-    bool a_set  = ( a[ai] == '[' );
-    bool b_set  = ( b[bi] == '[' );
-
-    if ( a_wild && b_wild ) 
-      dest += '?';
-
-    else if ( a_wild && b_bell )
-      dest += b[bi];
-    else if ( b_wild && a_bell )
-      dest += a[ai];
-
-    else if ( a_bell && a_bell ) {
-      if ( a[ai] == b[bi] ) 
-        dest += a[ai];
-      else return false;
-    }
-
-    else if ( a_wild && b_set ) 
-      copy_choices( dest, b, bi );  // bi now refers to ']'
-    else if ( b_wild && a_set ) 
-      copy_choices( dest, a, ai );  // bi now refers to ']'
-
-    else if ( a_bell && b_set ) {
-      if ( !copy_if_choices_contains(dest, b, bi, a[ai]) ) 
-        return false;
-    }
-    else if ( b_bell && a_set ) {
-      if ( !copy_if_choices_contains(dest, a, ai, b[bi]) ) 
-        return false;
-    }
-
-    else if ( a_set && b_set ) {
-      if ( !copy_choices_intersection(dest, a, ai, b, bi) )
-        return false;
-    }
-
-    else RINGING_THROW_OR_RETURN( 
-      row_wildcard::invalid_pattern( string(), 
-        string("Unknown symbol: ") 
-          + ( a_set || a_wild || a_bell ? b[bi] : a[ai] ) ),
-      false );
-
-
-    if ( ai < an ) ++ai;
-    if ( bi < bn ) ++bi;
-  }
-
-  dest += a.substr(an);
-  return true;
-}
-
-
 // Function to provide a brief check if an expression is valid/invalid.
 bool row_wildcard::check_expression() const
 {
@@ -277,182 +113,148 @@ bool row_wildcard::check_expression() const
   return true;
 }
 
+RINGING_START_ANON_NAMESPACE
+
+// One item of a pattern: a bell, a '?', a '[...]' or a '*'
+struct item
+{
+  item() : star(false), any(false) {}
+
+  // Can the item be bell number B?  BELLS stands for any bell which does
+  // not appear in the pattern.
+  bool allows( unsigned b ) const
+    { return any || b < choices.size() && choices[b]; }
+
+  bool star, any;
+  vector<bool> choices;
+};
+
+// The offsets into the pattern that the bells so far can have reached.
+typedef vector<bool> offsets;
+
+// A '*' may match nothing
+void skip_stars( vector<item> const& items, offsets& at )
+{
+  for ( size_t i=0; i<items.size(); ++i )
+    if ( at[i] && items[i].star )
+      at[i+1] = true;
+}
+
+RINGING_END_ANON_NAMESPACE
+
 RINGING_ULLONG row_wildcard::count( unsigned bells ) const
 {
-  int q = 0;
   if (!bells) bells = b;
 
   if (!bells)
     RINGING_THROW_OR_RETURN(
       invalid_pattern(pat, "Number of bells unspecified"), 0 );
-    
-  return possible_matches(bells, 0, pat, q);
+
+  return possible_matches(bells);
 }
 
 // This function is subtle: counting the number of possible matches
 // is harder than it might seem.  E.g. we need to be able to 
 // determine that [12][23][34][14] only actually has two matches --
-// once the first bell has been chosen, the rest is forced.
+// once the first bell has been chosen, the rest is forced.  And a row 
+// which matches a pattern like '*[35]*' in two ways counts only once.
 //
-// The function is called recursively to iterate through the pattern string
-// which is passed in S, position by position, where POS is the offset into
-// S of the character we're considering.   When a '[...]' is encountered,
-// recurse try each possibility in turn, thus the leading substring of S
-// -- i.e. the section [0, POS) -- never contains a [].  When a '*' is 
-// encountered, we rewrite it as a sequence of '?'s.  If multiple '*'s are
-// present, we try each possibility separately -- and, critically, subtract
-// the double-counting due to a single row matching multiple times (see 
-// comment below for discussion).  Q keeps track of the number of '?'s 
-// already found; we multiply by Q each time we find one with the overall 
-// result of Q! for a series of Q '?'s.
+// We go through the row place by place, keeping the number of ways to get 
+// there for each combination of the bells used so far and the offsets in the
+// pattern that they can have reached.  As only those bells which appear in
+// the pattern need telling apart, there are few enough of these.
 //
-RINGING_ULLONG row_wildcard::possible_matches
-  ( unsigned int bells, unsigned int pos, const string &s, int &q ) const
+RINGING_ULLONG row_wildcard::possible_matches( unsigned int bells ) const
 {
-  if (pos >= s.size())
-    {
-      // Elsewhere (and traditionally in the music_details class) we
-      // consider a overly-short pattern without a star (e.g. '5') to
-      // have an implicit trailing '*'.  For consistency, lets do that here.
-      if ( count_bells(s) < bells )
-        return possible_matches( bells, pos, s + '*', q );
-      else
-        return 1;
+  vector<item> items;
+  vector<bool> named( bells );
+  bool had_star = false;
+
+  for ( string::const_iterator i = pat.begin(); i != pat.end(); ++i ) {
+    item it;
+    if ( *i == '*' ) 
+      it.star = it.any = had_star = true;
+    else if ( *i == '?' )
+      it.any = true;
+    else {
+      bool const in_brackets = *i == '[';
+      if ( in_brackets ) ++i;
+      it.choices.resize( bells );
+      for ( ; i != pat.end() && *i != ']'; ++i ) {
+        bell const c( bell::read_char(*i) );
+        if ( c < bells ) 
+          it.choices[c] = named[c] = true;
+        if ( !in_brackets ) break;
+      }
     }
-  else
-    {
-      if (bell::is_symbol(s[pos]))
-	{
-	  return possible_matches(bells, pos + 1, s, q);
-	}
-      else if (s[pos] == '?')
-	{
-	  int new_q = ++q;
-	  return possible_matches(bells, pos + 1, s, q) * new_q;
-	}
-      else if (s[pos] == '[')
-	{
-	  RINGING_ULLONG total = 0;
+    items.push_back(it);
+  }
 
-	  // Replace the [...] with each item in it and 
-	  // pass through again.
-	  unsigned int lastpos = s.find(']', pos + 1);
-	  for (unsigned int i = pos + 1; i < lastpos; i++)
-	    {
-	      string modified(s, 0, pos);
-	      unsigned int newpos = modified.size();
-	      // Only do this if the bell isn't in the string already,
-              // and if it isn't already in the alternatives group.  Thus,
-              // [5][5]* will never match anything, and [55]* doesn't double
-              // count rows beginning with 5.
-	      if (modified.find(s[i]) == string::npos &&
-                  s.find(s[i],pos) == i)
-		{
-		  modified += s[i];
-		  modified += s.substr(lastpos + 1, s.size() - lastpos - 1);
-
-	          int orig_q = q;
-		  total += possible_matches(bells, newpos, modified, q);
-		  q = orig_q;
-		}
-	    }
+  // Elsewhere (and traditionally in the music_details class) we
+  // consider a overly-short pattern without a star (e.g. '5') to
+  // have an implicit trailing '*'.  For consistency, lets do that here.
+  if ( !had_star ) {
+    item it;
+    it.star = it.any = true;
+    items.push_back(it);
+  }
 
-	  return total;
-	}
-      else if (s[pos] == '*')
-	{
-          // Two consecutive '*'s should be replaced with a single one
-          // as the code to handle the intersection between moving sections
-          // is inefficient and this is one of the worst cases.
-          if ( s.size() > pos + 1 && s[pos+1] == '*' ) 
-            {
-              string modified( s, 0, pos );
-              modified.append( s, pos + 1, s.size() - pos - 1 );
- 
-              return possible_matches( bells, pos, modified, q );
-            }
-
-          // The largest number of '?'s that this could represent.
-          const unsigned n = bells - count_bells(s);
-
-	  if ( s.size() == pos + 1 || s.find('*', pos + 1) == string::npos )
-	    {
-	      // Pattern has just 1 star, so replace with maximum '?'
-	      return possible_matches(bells, pos, expand_star(s, pos, n), q);
-	    }
-	  else
-	    {
-       	      // More than 1 star. Replace string with 0, 1, 2... '?'
-	      // and calculate at each stage
-              //
-              // However, just doing this is not sufficient as it would
-              // have '*[35]*' match 240 different rows on five bells.
-              // The problem arises because we fail to handle the overlap 
-              // between '*5*' and '*3*'.  Both correctly match 120 times, 
-              // but that does not mean that '*[53]*' should match 120+120 
-              // times.
-              //
-              // When we expand the first '*' in '*[35]*' we sum the matches
-              // '[35]*' + '?[35]*' + '??[35]*' + '???[35]*' + '????[35]*'.
-              // However, we also need to subtract the intersections
-              // between each of the 5*4/2=10 pairs.  For example, the first
-              // intersection '[35]*' AND '?[35]*' is '[35][35]*' which 
-              // matches 2x6=12 times.  The other nine intersections 
-              // contribute the same giving a total of 240-10*12 = 120.
-              //
-              // However, as a useful optimisation, we can observe that
-              // the intersections are all zero iff the fragment of the
-              // pattern between the two '*'s includes a fixed bell.   For
-              // example, '*5*3*1*' has a fixed bell between each pair of 
-              // '*'s and so is correctly calculated (20 on five bells)
-              // without calculating the intersection.  As calculating
-              // the intersection is O(BELLS^2), this is best avoided 
-              // where possible.
-              //
-              bool need_intersection = true;
-              {
-                size_t frag_end = s.find('*', pos + 1);
-                bool in_bracket = false;
-                bool had_fixed_bell = false;
-                for ( unsigned i = pos+1; i < frag_end; ++i )
-                  if ( s[i] == '[' ) 
-                    in_bracket = true;
-                  else if ( s[i] == ']' ) 
-                    in_bracket = false;
-                  else if ( !in_bracket && bell::is_symbol(s[i]) ) 
-                    need_intersection = false;
-              }
-
-	      RINGING_ULLONG total = 0;
-
-  	      for ( unsigned i = 0; i <= n; ++i )
-		{
-		  string modified = expand_star(s, pos, i);
-
-	          int orig_q = q;
-		  total += possible_matches(bells, pos, modified, q);
-		  q = orig_q;
-
-                  for ( unsigned j = 0; need_intersection && j < i; ++j )
-                    {
-                      string intersect;
-                      if ( make_intersection
-                             ( intersect, modified, expand_star(s,pos,j) ) )
-                        total -= possible_matches( bells, pos, intersect, q );
-
-                      q = orig_q;
-                    }
-		}
-
-	      return total;
-	    }
-	}
-      else
-	{
-          RINGING_THROW_OR_RETURN( 
-            invalid_pattern(pat, string("Unknown character: ") + s[pos]), 0 );
-	}
+  unsigned others = 0;  // Number of bells not in the pattern
+  for ( unsigned i=0; i<bells; ++i )
+    if ( !named[i] ) ++others;
+
+  typedef map< pair< vector<bool>, offsets >, RINGING_ULLONG > ways_t;
+  ways_t ways;
+  {
+    offsets start( items.size() + 1 );
+    start[0] = true;
+    skip_stars( items, start );
+    ways[ make_pair( vector<bool>(bells), start ) ] = 1;
+  }
+
+  for ( unsigned pos=0; pos<bells; ++pos ) {
+    ways_t next_ways;
+    for ( ways_t::const_iterator w = ways.begin(); w != ways.end(); ++w ) {
+      vector<bool> used( w->first.first );
+      offsets const& at = w->first.second;
+
+      unsigned used_others = pos;
+      for ( unsigned i=0; i<bells; ++i )
+        if ( used[i] ) --used_others;
+
+      // The last value of I is for the bells that are not in the pattern.
+      for ( unsigned i=0; i<=bells; ++i ) {
+        if ( i < bells ? !named[i] || used[i] : used_others == others ) 
+          continue;
+
+        offsets next( at.size() );
+        bool possible = false;
+        for ( size_t j=0; j<items.size(); ++j )
+          if ( at[j] && items[j].allows(i) ) {
+            next[ items[j].star ? j : j+1 ] = true;
+            possible = true;
+          }
+        if ( !possible ) continue;
+        skip_stars( items, next );
+
+        if ( i < bells ) {
+          used[i] = true;
+          next_ways[ make_pair(used, next) ] += w->second;
+          used[i] = false;
+        }
+        else 
+          next_ways[ make_pair(used, next) ] 
+            += w->second * (others - used_others);
+      }
     }
+    ways.swap( next_ways );
+  }
+
+  RINGING_ULLONG total = 0;
+  for ( ways_t::const_iterator w = ways.begin(); w != ways.end(); ++w )
+    if ( w->first.second[ items.size() ] )
+      total += w->second;
+  return total;
 }
 
 #if RINGING_USE_EXCEPTIONS
diff --git a/ringing/row_wildcard.h b/ringing/row_wildcard.h
index 18bf7f9..0b707f8 100644
--- a/ringing/row_wildcard.h
+++ b/ringing/row_wildcard.h
@@ -72,21 +72,7 @@ public:
 private:
   bool check_expression() const;
 
-  void copy_choices
-    ( string& dest, string const& src, unsigned& pos ) const;
-
-  bool copy_if_choices_contains
-    ( string& dest, string const& src, unsigned& pos, char sym ) const;
-
-  bool copy_choices_intersection 
-    ( string& dest, string const& a, unsigned& ai,
-                    string const& b, unsigned& bi ) const;
-
-  bool make_intersection
-    ( string& dest, string const& a, string const& b ) const;
-
-  RINGING_ULLONG possible_matches
-    ( unsigned int bells, unsigned int pos, const string &s, int &q ) const;
+  RINGING_ULLONG possible_matches( unsigned int bells ) const;
 
   // Data members
   string pat;
-- 
2.43.0


From 140d5253ea2e6a1149ffb45c1dd38535f17fee6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 028/193] fix: + signs were not allowed in music scores

---
 ringing/music.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index 49039b2..edb38eb 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -590,7 +590,8 @@ void music::add_scored_music_string( string const& s )
             scoreh = atoi( pattern.c_str() );
             comma = j;
           }
-        else if ( !isdigit( pattern[j] ) && pattern[j] != '-' )
+        else if ( !isdigit( pattern[j] ) && pattern[j] != '-' 
+                  && pattern[j] != '+' )
           break;
     }
 
-- 
2.43.0


From 2c292ec18f91d83e82144c05610af77113408117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 029/193] fix: clearing music left the patterns in its list

---
 ringing/music.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index edb38eb..a16992d 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -380,6 +380,7 @@ music::music(unsigned int b, music_details const& md)
 void music::clear(unsigned int new_b) 
 {
   if (new_b) b = new_b;
+  info.clear();
   top_node.reset( new music_node(b) );
   reset_music();
 }
-- 
2.43.0


From 9f340b86a7486c03218344cb541ce3e5c5e07114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 030/193] fix: patterns added to music before set_bells did not
 match

---
 ringing/music.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index a16992d..4a55da8 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -43,7 +43,6 @@ class music_node
 public:
   // Have to know how many bells there are
   music_node(unsigned int b) : bells(b) {} 
-  void set_bells(unsigned int b);
 
   void add(const string &mds, unsigned int i, unsigned int key, 
            unsigned int pos);
@@ -213,16 +212,6 @@ bool music_details::check_bells( unsigned bells ) const
 // function definitions for MUSIC_NODE
 // ********************************************************
 
-void music_node::set_bells(unsigned int b)
-{
-  bells = b;
-
-  // and iterate over each subnode setting it there
-  for (BellNodeMap::iterator i=subnodes.begin(), e=subnodes.end(); i!=e; ++i)
-    if (i->second)
-      i->second->set_bells(b);
-}
-
 // "mds" is the pattern as a string, and "i" is the current character offset
 // into it (as we are called recursively).  "key" is used to identify which
 // pattern matched, if we have several patterns.  "pos" is the logical offset
@@ -401,8 +390,11 @@ void music::set_bells(unsigned int new_b)
     for (iterator i=info.begin(), e=info.end(); i!=e; ++i)
       i->check_bells(new_b);
 
-    top_node->set_bells(new_b);
+    // How a pattern is expanded depends on the number of bells
     b = new_b;
+    top_node.reset( new music_node(b) );
+    for (size_type i=0; i<info.size(); ++i)
+      top_node->add(info[i].get(), 0, i, 0);
   }
 }
 
-- 
2.43.0


From 5036b9ba894b3b87b5856644152a8b4d22cfc62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 031/193] fix: patterns with stars missed rows, or counted rows
 more than once

---
 ringing/music.cpp | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index 4a55da8..1652bba 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -47,8 +47,11 @@ public:
   void add(const string &mds, unsigned int i, unsigned int key, 
            unsigned int pos);
 
+  // "seen" says which patterns have already matched this row: a pattern with
+  // more than one star can match a row in several ways, but only counts once.
   bool match(const row &r, unsigned int pos, vector<music_details> &results, 
-             const EStroke &stroke, vector<bell> const& wildcard_matches) const;
+             const EStroke &stroke, vector<bell> const& wildcard_matches,
+             vector<bool> &seen) const;
 
   // Helper function to work with cloning_pointer.
   music_node* clone() const { return new music_node(*this); }
@@ -269,19 +272,20 @@ void music_node::add(const string &mds, unsigned int i,
         detailsmatch.push_back(key);
 
       // Is this the last * in the pattern?  If so, it is handled by
-      // add_to_subtree().
-      else if (mds.find('*', i + 1) == string::npos) 
-        add_to_subtree(0, mds, i, key, pos, true);
+      // add_to_subtree(), unless it matches no bells.
+      else if (mds.find('*', i + 1) == string::npos) {
+        if (bells - pos == count_bells(mds.substr(i)))
+          add(mds, i + 1, key, pos);
+        else
+          add_to_subtree(0, mds, i, key, pos, true);
+      }
           
       else {
         // We have something like '*456*'
         // First ignore the star and just move on.
         add(mds, i + 1, key, pos);
         // Now deal with the star
-        if (mds.size() - i >= pos)
-          add_to_subtree(0, mds, i, key, pos, true);
-        else
-          add_to_subtree(0, mds, i, key, pos, false);
+        add_to_subtree(0, mds, i, key, pos, true);
       }
     }
     else throw music_details::invalid_regex(mds, 
@@ -314,12 +318,15 @@ void music_node::add_to_subtree(unsigned int place, const string &mds, unsigned
 
 bool music_node::match(const row &r, unsigned int pos, 
                        vector<music_details> &results, const EStroke &stroke, 
-                       vector<bell> const& wilds) const
+                       vector<bell> const& wilds, vector<bool> &seen) const
 {
   bool matched = false;
 
   for ( vector<unsigned int>::const_iterator 
           i = detailsmatch.begin(), e = detailsmatch.end();  i != e;  ++i ) {
+    if (seen[*i]) continue;
+    seen[*i] = true;
+
     // Append any bells that we haven't yet matched due to a wildcard
     vector<bell> wilds2(wilds); 
     for (unsigned k = pos; k < r.bells(); ++k)
@@ -330,6 +337,10 @@ bool music_node::match(const row &r, unsigned int pos,
     matched = true;
   }
 
+  // There are no more bells to match
+  if (pos >= (unsigned) r.bells())
+    return matched;
+
   // Is there a wildcard subnode at index 0?
   BellNodeMap::const_iterator j = subnodes.find(0);
   if (j != subnodes.end()) {
@@ -337,13 +348,15 @@ bool music_node::match(const row &r, unsigned int pos,
     vector<bell> wilds2(wilds); 
     wilds2.push_back(r[pos]);
 
-    matched = j->second->match(r, pos + 1, results, stroke, wilds2) || matched;
+    matched = j->second->match(r, pos + 1, results, stroke, wilds2, seen)
+      || matched;
   }
     
   // Is there a subnode matching this specific bell?
   j = subnodes.find(r[pos] + 1);
   if (j != subnodes.end())
-    matched = j->second->match(r, pos + 1, results, stroke, wilds) || matched;
+    matched = j->second->match(r, pos + 1, results, stroke, wilds, seen)
+      || matched;
 
   return matched;
 }
@@ -413,8 +426,9 @@ bool music::process_row(const row &r, bool back)
   for (music_details& md : info)
     md.last_wildcards.clear();
 
+  vector<bool> seen(info.size());
   return top_node->match(r, 0, info, back ? eBackstroke : eHandstroke,
-                         vector<bell>());
+                         vector<bell>(), seen);
 }
 
 // Return the total score for all items
-- 
2.43.0


From f18b86c1cea8932afff00c2b815c5c33113af6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 032/193] fix: a multtab with a postgroup could not find rows
 before their representative

make_representative started from the row itself, even if it was not one of the
rows in the table.
---
 ringing/multtab.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/multtab.cpp b/ringing/multtab.cpp
index f786637..ce153dc 100644
--- a/ringing/multtab.cpp
+++ b/ringing/multtab.cpp
@@ -90,13 +90,13 @@ row multtab::make_post_representative( const row& r ) const
 
 row multtab::make_representative( const row& r ) const
 {
-  row res(r);
+  row res;
 
   for ( group::const_iterator i( pends.begin() ), e( pends.end() ); 
         i != e; ++i )
     {
       row const x( make_post_representative( *i * r ) );
-      if ( x.bells() && x < res )
+      if ( x.bells() && ( res.bells() == 0 || x < res ) )
         res = x;
     }
 
-- 
2.43.0


From db6f5e3929beb488a2ac8f8ba00174c81bf4f3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 033/193] fix: a touch containing an empty node could not be
 iterated over

Children with no changes, or repeated no times, were not skipped, and
comparing a default constructed iterator dereferenced a null pointer.
---
 ringing/touch.cpp | 21 ++++++++++++++++-----
 ringing/touch.h   |  2 +-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/ringing/touch.cpp b/ringing/touch.cpp
index d81a625..cb7c7a8 100644
--- a/ringing/touch.cpp
+++ b/ringing/touch.cpp
@@ -84,9 +84,23 @@ private:
   friend class touch_child_list;
   iterator(list<entry>::const_iterator j, 
 	   list<entry>::const_iterator k) : i(j), last(k), count(0)
-  { if(i != last) { ci = (*i).second->begin(); } }
+  { start_entry(); }
+
+  // Start the current entry, or the next one to contain any changes
+  void start_entry();
 };
 
+void touch_child_list::iterator::start_entry()
+{
+  count = 0;
+  for( ; i != last; ++i )
+    if( (*i).first > 0 ) {
+      ci = (*i).second->begin();
+      if( ci != (*i).second->end() )
+	return;
+    }
+}
+
 
 touch_node::iterator_base& touch_child_list::iterator::operator++()
 {
@@ -97,10 +111,7 @@ touch_node::iterator_base& touch_child_list::iterator::operator++()
       ci = (*i).second->begin();
     } else {
       ++i;
-      if(i != last) {
-	count = 0;
-	ci = (*i).second->begin();
-      }
+      start_entry();
     }
   }
   return *this;
diff --git a/ringing/touch.h b/ringing/touch.h
index 833f3f5..39370eb 100644
--- a/ringing/touch.h
+++ b/ringing/touch.h
@@ -91,7 +91,7 @@ public:
     const_iterator operator++(int) 
       { const_iterator tmp(*this); ++*this; return tmp; }
     bool operator==(const const_iterator& i) const 
-      { return (!bp && !(i.bp)) || (*bp == *(i.bp)); }
+      { return (!bp && !(i.bp)) || (bp && i.bp && *bp == *(i.bp)); }
     bool operator!=(const const_iterator& i) const
       { return !operator==(i); }
 
-- 
2.43.0


From 5f7fa5f04b7d4c25a247ff0d20ac939e8cc90214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:15 +0000
Subject: [PATCH 034/193] fix: table_search without limits found nothing, and
 with them read its flags too soon

---
 ringing/table_search.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index edf138e..c58f80c 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -90,14 +90,14 @@ table_search::table_search( const method &meth, const vector<change> &calls,
 table_search::table_search( const method &meth, const vector<change> &calls,
                             bool set_nr )
   : meth( meth ), calls( calls ),
+    lenrange( make_pair( size_t(0), size_t(-1) ) ),
     f( set_nr ? ignore_rotations : no_flags )
 {}
 
 table_search::table_search( const method &meth, const vector<change> &calls,
                             pair< size_t, size_t > lenrange, bool set_nr )
   : meth( meth ), calls( calls ),
-    lenrange( range_div( lenrange, f & length_in_changes
-                                     ? partends.size() * meth.length() : 1) ),
+    lenrange( lenrange ),
     f( set_nr ? ignore_rotations : no_flags )
 {
   DEBUG( "Length range set to " << lenrange.first << "-" << lenrange.second 
-- 
2.43.0


From dcb1ce11bbae9f5e86500911ba09561060caea9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:15 +0000
Subject: [PATCH 035/193] fix: table_search assumed that part ends were in
 course and fixed the treble

---
 ringing/table_search.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index c58f80c..1527051 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -155,6 +155,13 @@ private:
         return false;
       }
 
+    for ( group::const_iterator i( s->partends.begin() ); 
+          i != s->partends.end(); ++i )
+      if ( i->sign() == -1 ) {
+        DEBUG( "Part end " << *i << " is out-of-course" );
+        return false;
+      }
+
     DEBUG( "All lead heads are in-course" );
     return true;
   }
@@ -168,6 +175,11 @@ private:
       if ( !s->calls[i].findplace(0) )
 	return false;
 
+    for ( group::const_iterator i( s->partends.begin() ); 
+          i != s->partends.end(); ++i )
+      if ( i->bells() && (*i)[0] != 0 )
+        return false;
+
     return true;
   }
 
-- 
2.43.0


From 6aec82882e304734e249f464f02fd0d05386c28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:15 +0000
Subject: [PATCH 036/193] fix: table_search found touches whose parts are false
 against each other

---
 ringing/table_search.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index 1527051..7c63694 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -214,7 +214,8 @@ private:
         impossible = true;
 
       DEBUG( "FLH: " << *i );
-      falsenesses.push_back( table.compute_post_mult( *i ) );
+      if ( !i->isrounds() )
+        falsenesses.push_back( table.compute_post_mult( *i ) );
     }
   }
 
@@ -247,13 +248,20 @@ private:
     }
   }
 
-  // Is the row false against a row that we've already had?
+  // Is the row false against a row that we've already had, or against
+  // the corresponding row of another part?
   bool is_row_false( const row_t &r )
   {
+    if ( leads[ r.index() ] )
+      return true;
+
     for ( vector< post_col_t >::const_iterator i( falsenesses.begin() ); 
 	  i != falsenesses.end(); ++i )
-      if ( leads[ (r * *i).index() ] )
-	return true;
+      {
+	row_t const f( r * *i );
+	if ( f == r || leads[ f.index() ] )
+	  return true;
+      }
 
     return false;
   }
@@ -385,7 +393,7 @@ private:
 
   lead_vector_t leads;			// The leads had so far
   vector< post_col_t > call_lhs;	// The effect of each call (inc. Pl.)
-  vector< post_col_t > falsenesses;	// The falsenesses of the method
+  vector< post_col_t > falsenesses;	// The falsenesses, except rounds
 };
 
 search_base::context_base *table_search::new_context() const 
-- 
2.43.0


From 37fcad6b3a41bf6c0ecbe5acd25579891880d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 037/193] fix: table_search found some touches twice, and false
 rotations of blocks

---
 ringing/table_search.cpp | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index 7c63694..75e5d27 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -288,15 +288,22 @@ private:
     force_halt = output( t );
 
     // Try all of it's distinguishable rotations.
-    if ( !(f & ignore_rotations) && table.partends().size() == 1 ) {
-      size_t parts( len % cur ? cur : len / cur );
-      for ( size_t start = 1; !force_halt && start < len / parts; ++start ) {
+    if ( !(f & ignore_rotations) && prune_rotations() ) {
+      for ( size_t start = 1; !force_halt && start < cur; ++start ) {
         ch.splice( ch.end(), ch, ch.begin() );
         force_halt = output( t );
       }
     }
   }
 
+  // Do we only search for touches in canonical form?  Multipart comps are 
+  // always canonical, and a rotation of a block that isn't round need not 
+  // be true.
+  bool prune_rotations() const
+  {
+    return table.partends().size() == 1 && !(f & non_round_blocks);
+  }
+
   // A touch, T, is in canonical form if there exists no rotation of T
   // that is lexicographically less than T.
 
@@ -307,8 +314,7 @@ private:
     if ( calls.empty() )
       return true;
 
-    // Multipart comps are always canonical 
-    if ( table.partends().size() > 1 ) return true;
+    if ( !prune_rotations() ) return true;
 
     if ( cur == 0 || calls.back() > calls[ calls.size() - 1 - cur ] )
       cur = calls.size();
@@ -321,17 +327,12 @@ private:
 
   // ... and this function checks that a touch fragment for which 
   // is_possibly_canonical() returns true is a canonical complete touch.
-  bool is_really_canonical()
+  // It is if it consists of a whole number of repeats of its first cur calls.
+  bool is_really_canonical( size_t cur )
   {
-    // Multipart comps are always canonical (because we don't prue rotations
-    // from multi-part searches)
-    if ( table.partends().size() > 1 ) return true;
-
-    for ( vector< size_t >::const_iterator i( calls.begin() ); 
-	  i != calls.end(); ++i )
-      if ( *i != calls.front() )
-	return calls.back() != calls.front();
-    return true;
+    if ( !prune_rotations() ) return true;
+
+    return cur == 0 || calls.size() % cur == 0;
   }
 
   // The main loop of the algorithm   
@@ -355,7 +356,7 @@ private:
 	// Has it come round, and is it in it's canonical form?
 	if ( depth >= lenrange.first 
              && ( (f & non_round_blocks) || r.isrounds() ) 
-             && is_really_canonical() )
+             && is_really_canonical( cur ) )
 	  output_touch( output, cur );
       }
     else if ( depth < lenrange.second )
-- 
2.43.0


From 65c4a1b217b21850051586465cb9d6f5c76614e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 038/193] fix: table_search found touches although each lead is
 false in itself

---
 ringing/table_search.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index 75e5d27..e66c405 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -36,6 +36,7 @@
 #include <ringing/multtab.h>
 #include <ringing/extent.h>
 #include <ringing/touch.h>
+#include <ringing/proof.h>
 #include <ringing/group.h>
 
 #define DEBUG_LEVEL 0
@@ -200,7 +201,18 @@ private:
   void init_falseness( const method &meth, int ft_flags )
   {
     falseness_table ft( meth, ft_flags );
-    
+
+    // The search doesn't check whether a lead is false against itself.
+    prover p;
+    row r( meth.bells() );
+    for ( method::const_iterator i( meth.begin() ); i != meth.end(); ++i )
+    {
+      p.add_row( r );
+      r *= *i;
+    }
+    if ( !p.truth() )
+      impossible = true;
+
     for ( falseness_table::const_iterator i( ft.begin() ); i != ft.end(); ++i )
     {
       // If the lead is false against the part-end then we can never
-- 
2.43.0


From 34fe4343fe9aaed73e74b17d127daa07e7eec98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 039/193] fix: basic_search found some touches twice

---
 ringing/basic_search.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/ringing/basic_search.cpp b/ringing/basic_search.cpp
index 2d466fa..23853b5 100644
--- a/ringing/basic_search.cpp
+++ b/ringing/basic_search.cpp
@@ -133,7 +133,6 @@ private:
   void output_touches( outputer &output, size_t cur )
   {
     size_t len( calls.size() );
-    size_t parts( len % cur ? cur : len / cur );
     list< touch_child_list::entry > &ch = tl->children();
 
     ch.clear();
@@ -144,7 +143,7 @@ private:
     force_halt = output( t );
 
     if ( ! ignore_rotations )
-      for ( size_t start = 1; !force_halt && start < len / parts; ++start )
+      for ( size_t start = 1; !force_halt && start < cur; ++start )
 	{
 	  // Try all of it's distinguishable rotations.
 	  ch.splice( ch.end(), ch, ch.begin() );
@@ -173,13 +172,10 @@ private:
 
   // ... and this function checks that a touch fragment for which 
   // is_possibly_canonical() returns true is a canonical complete touch.
-  bool is_really_canonical()
+  // It is if it consists of a whole number of repeats of its first cur calls.
+  bool is_really_canonical( size_t cur )
   {
-    for ( vector< size_t >::const_iterator i( calls.begin() ); 
-	  i != calls.end(); ++i )
-      if ( *i != calls.front() )
-	return calls.back() != calls.front();
-    return true;
+    return cur == 0 || calls.size() % cur == 0;
   }
 
   // The main loop of the algorithm   
@@ -193,7 +189,7 @@ private:
     if ( is_row_false( r ) )
       {
 	// Has it come round, and is it in it's canonical form?
-	if ( depth >= lenrange.first && r.isrounds() && is_really_canonical() )
+	if ( depth >= lenrange.first && r.isrounds() && is_really_canonical( cur ) )
 	  output_touches( output, cur );
 
       }
-- 
2.43.0


From 62b2a9aca4b4542d1b757be407d75023674a554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 040/193] fix: basic_search found false touches if the treble
 moves, or leads are false in themselves

---
 ringing/basic_search.cpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/ringing/basic_search.cpp b/ringing/basic_search.cpp
index 23853b5..54fbf02 100644
--- a/ringing/basic_search.cpp
+++ b/ringing/basic_search.cpp
@@ -32,6 +32,7 @@
 #include <ringing/basic_search.h>
 #include <ringing/falseness.h>
 #include <ringing/touch.h>
+#include <ringing/proof.h>
 
 RINGING_START_NAMESPACE
 
@@ -80,20 +81,31 @@ public:
 private:
   void init_falseness( const method &meth )
   {
+    // If all calls have even parity, we can exclude out-of-course 
+    // falsenesses; and if the treble leads at every lead head, those 
+    // that move it.
+    int flags( falseness_table::in_course_only );
+
     for ( vector< row >::const_iterator i( call_lhs.begin() ); 
 	  i != call_lhs.end(); ++i )
       {
 	if ( i->sign() == -1 )
-	  {
-	    // At least one odd parity call, so we must consider 
-	    // out-of-course falsenesses
-	    falsenesses = falseness_table( meth );
-	    return;
-	  }
+	  flags &= ~falseness_table::in_course_only;
+	if ( (*i)[0] != 0 )
+	  flags |= falseness_table::no_fixed_treble;
       }
 
-    // All calls have even parity so we can exclude out-of-course falsenesses
-    falsenesses = falseness_table( meth, falseness_table::in_course_only );
+    falsenesses = falseness_table( meth, flags );
+
+    // The search doesn't check whether a lead is false against itself.
+    prover p;
+    row r( meth.bells() );
+    for ( method::const_iterator i( meth.begin() ); i != meth.end(); ++i )
+      {
+	p.add_row( r );
+	r *= *i;
+      }
+    lead_true = p.truth();
   }
 
   void init_call( const row &le, const change &ch )
@@ -114,6 +126,10 @@ private:
   // Keep looking for touches, pushing them down the outputer.
   virtual void run( outputer &output ) 
   {
+    // No touch can be true if its leads are not
+    if ( !lead_true ) 
+      return;
+
     force_halt = false;
     leads.clear();
     run_recursive( output, row( call_lhs.front().bells() ), 0, 0 );
@@ -221,6 +237,7 @@ private:
   set< row > leads;			// The leads had so far
   vector< row > call_lhs;		// The effect of each call (inc. plain)
   falseness_table falsenesses;		// The falsenesses of the method
+  bool lead_true;			// Is a lead true in itself?
 };
 
 search_base::context_base *basic_search::new_context() const 
-- 
2.43.0


From b106eccb2ca5353c7c72c9f09f3e7388d2dc18a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 041/193] fix: litelib: skip the byte order mark every time the
 file is read

---
 ringing/litelib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 8ed37b6..8a11c41 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -215,6 +215,7 @@ library_base::const_iterator litelib::impl::begin() const
   if (f_owner) {
     f_owner->clear();
     f_owner->seekg(0, ios::beg);
+    const_cast< litelib::impl * >(this)->skip_bom();
   }
   return const_iterator(const_cast< litelib::impl * >(this),
                         new entry_type(b, flags));
-- 
2.43.0


From 69952c7c4458e0767e84983daa9b99f32d2d12d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 042/193] fix: litelib: names ending in Treble Bob, Treble
 Place or Little and names containing the stage

---
 ringing/litelib.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 8a11c41..4e7c016 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -135,14 +135,15 @@ string litelib::impl::entry_type::name() const
 static void trim_trailing_whitespace( string &line )
 {
   string::iterator b( line.begin() ), j( line.end() );
-  while ( j-1 != b && isspace(*(j-1)) ) --j;
+  while ( j != b && isspace(*(j-1)) ) --j;
   line = string( b, j );
 }
 
 static bool remove_suffix( string& n, string const& suffix )
 {
-  string::size_type i = n.find(suffix);
-  if ( i != string::npos && i == n.length() - suffix.length() ) {
+  string::size_type i = n.rfind(suffix);
+  if ( suffix.size() && i != string::npos 
+         && i == n.length() - suffix.length() ) {
     n.erase(i); trim_trailing_whitespace(n);
     return true;
   }
@@ -154,13 +155,15 @@ string litelib::impl::entry_type::base_name() const
   string n = name();
   if ( remove_suffix( n, method::stagename(b) ) ) {
     bool had_class = false;
-    for ( method::m_class c = method::M_BOB; 
-            c <= method::M_SLOW_COURSE && !had_class;  
-            c = (method::m_class)( (int)c + 1 ) )
+    // Go from last to first so that "Treble Bob" and "Treble Place" are
+    // tried before "Bob" and "Place".
+    for ( int c = method::M_SLOW_COURSE; c >= method::M_BOB && !had_class; --c )
       if ( remove_suffix( n, method::classname(c) ) )
         had_class = true;
-   
-    if (had_class) remove_suffix( n, method::classname( method::M_LITTLE ) );
+
+    // The class of a hybrid method is not part of its name, but Little is.
+    if ( had_class || method( pn(), b ).methclass() & method::M_LITTLE )
+      remove_suffix( n, method::classname( method::M_LITTLE ) );
     remove_suffix( n, method::classname( method::M_DIFFERENTIAL ) );
   }
   return n;
-- 
2.43.0


From 8db007fa3ffdc7e80d6dde3749a2ba899f5873af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 043/193] fix: cclib: base_name strips the class that name adds

---
 ringing/cclib.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ringing/cclib.cpp b/ringing/cclib.cpp
index 3c1ed92..5c0e193 100644
--- a/ringing/cclib.cpp
+++ b/ringing/cclib.cpp
@@ -498,6 +498,10 @@ string cclib::impl::entry_type::base_name() const
   if(block)
     maybe_strip_class( newname, "Block" );
 
+  // name() adds the class of the table where the entry doesn't have it
+  if(main_class)
+    maybe_strip_class( newname, method::classname(main_class) );
+
   if(plain)
     maybe_strip_class( newname, method::classname( method::M_BOB ) ) ||
       maybe_strip_class( newname, method::classname( method::M_PLACE ) ) ||
-- 
2.43.0


From cbbf685e2926a601fe7a28fd008031b0cf121ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:54 +0000
Subject: [PATCH 044/193] fix: cclib: no stray space after the names of hybrid
 methods

---
 ringing/cclib.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/cclib.cpp b/ringing/cclib.cpp
index 5c0e193..a7594c3 100644
--- a/ringing/cclib.cpp
+++ b/ringing/cclib.cpp
@@ -395,8 +395,9 @@ string cclib::impl::entry_type::name() const
   if (diff && n.find(method::classname( method::M_DIFFERENTIAL ))
                    == string::npos )
     n.append(" " + method::classname( method::M_DIFFERENTIAL ));
+  // (Hybrid is not part of the name, so may have an empty class name)
   string cl(" "); cl.append( method::classname(main_class) );
-  if (main_class && n.find(cl) == string::npos )
+  if (cl.size() > 1 && n.find(cl) == string::npos )
     n.append(cl);
   if (block && n.find(" Block") == string::npos )
     n.append(" Block");
-- 
2.43.0


From 0e324dd8749c059b17e43abc7efa6cda8804a6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 045/193] fix: cclib: number of an entry whose name is wrapped

---
 ringing/cclib.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ringing/cclib.cpp b/ringing/cclib.cpp
index a7594c3..371f330 100644
--- a/ringing/cclib.cpp
+++ b/ringing/cclib.cpp
@@ -432,7 +432,9 @@ cclib::impl::entry_type::get_facet( const library_facet_id& id ) const
   shared_pointer< library_facet_base > result;
 
   if ( id == cclib::ref::id ) 
-    result.reset( new cclib::ref( atoi( linebuf.c_str() ) ) );
+    // The number is on the first line of an entry
+    result.reset( new cclib::ref( atoi( wrapped_name.empty() 
+      ? linebuf.c_str() : wrapped_name.c_str() ) ) );
 
   else if ( id == first_tower_peal::id ) {
     peal p( read_peal( tower_date, tower_place, tower_end ) );
-- 
2.43.0


From a6fcb4fc04c288d74acc4d986effa3531aca0a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 046/193] fix: cclib: has_facet for peals in hand does not need
 a tower bell column

---
 ringing/cclib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/cclib.cpp b/ringing/cclib.cpp
index 371f330..9b3e46f 100644
--- a/ringing/cclib.cpp
+++ b/ringing/cclib.cpp
@@ -414,7 +414,7 @@ bool cclib::impl::entry_type::has_facet( const library_facet_id& id ) const
     return tower_date != string::npos && bool( get_facet( id ) );
   
   else if ( id == first_hand_peal::id ) 
-    return tower_end != string::npos && bool( get_facet( id ) );
+    return hand_date != string::npos && bool( get_facet( id ) );
 
   else if ( id == rw_ref::id ) 
     return rw_start != string::npos && bool( get_facet( id ) );
-- 
2.43.0


From 39ed4d41ff3c96d7f5eaf761d359a56072c37130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 047/193] fix: cclib: a table of plain methods does not affect
 the tables after it

---
 ringing/cclib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/cclib.cpp b/ringing/cclib.cpp
index 9b3e46f..95d4deb 100644
--- a/ringing/cclib.cpp
+++ b/ringing/cclib.cpp
@@ -252,6 +252,7 @@ void cclib::impl::entry_type::parse_title()
     || ( linebuf.find( "Differential ") != string::npos );
   little = ( linebuf.find( "Little " ) != string::npos );
   block = linebuf.find( "blocks" ) != string::npos;
+  plain = false;
 
   if ( linebuf.find( "Treble Place " ) != string::npos )
     main_class = method::M_TREBLE_PLACE;
-- 
2.43.0


From 403cba9762bb1c8e5e2701a9f72e116a32f49db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:56 +0000
Subject: [PATCH 048/193] fix: xmllib: a collection without any methodSet
 crashed

---
 ringing/xmllib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/xmllib.cpp b/ringing/xmllib.cpp
index 383033d..3744012 100644
--- a/ringing/xmllib.cpp
+++ b/ringing/xmllib.cpp
@@ -309,7 +309,7 @@ bool xmllib::impl::entry_type::readentry( library_base& lb )
   else if (cc_xml) {
     methset = next_sibling_element( doc->get_document().get_first_child(),
                                     "methodSet" );
-    meth = methset.get_first_child();
+    if (methset) meth = methset.get_first_child();
   }
   else
     meth = doc->get_document().get_first_child();
-- 
2.43.0


From 716b22151ccc3c50b31cbf80f4f4addedfe1bfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:19 +0000
Subject: [PATCH 049/193] fix: xmllib: first peals in hand were given as first
 tower bell peals

---
 ringing/xmllib.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ringing/xmllib.cpp b/ringing/xmllib.cpp
index 3744012..772a3e2 100644
--- a/ringing/xmllib.cpp
+++ b/ringing/xmllib.cpp
@@ -353,8 +353,12 @@ xmllib::impl::entry_type::get_facet( const library_facet_id& id ) const
   string elt( facet_elt(id) );
 
   if (elt.size()) {
-    if ( next_sibling_element( meth.get_first_child(), elt ) ) 
-      result.reset( new first_tower_peal( get_peal(elt) ) );
+    if ( next_sibling_element( meth.get_first_child(), elt ) ) {
+      if ( id == first_hand_peal::id )
+        result.reset( new first_hand_peal( get_peal(elt) ) );
+      else
+        result.reset( new first_tower_peal( get_peal(elt) ) );
+    }
   }
 
   return result;
-- 
2.43.0


From 6afebd3c00a051aaf3ac3151553316b2d845e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:42 +0000
Subject: [PATCH 050/193] fix: xmllib: the location of a peal is inside its
 element

---
 ringing/xmllib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/xmllib.cpp b/ringing/xmllib.cpp
index 772a3e2..ed84edd 100644
--- a/ringing/xmllib.cpp
+++ b/ringing/xmllib.cpp
@@ -158,7 +158,7 @@ peal xmllib::impl::entry_type::get_peal( const string& name ) const
 
   string loc;
 
-  dom_element l = next_sibling_element( meth.get_first_child(), "location" );
+  dom_element l = next_sibling_element( e.get_first_child(), "location" );
   if ( l ) {
     // TODO: The peal object should know about the different 
     // parts of a location
-- 
2.43.0


From b0a79bbf27096a327ea902a1989e0639eafbfd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:01 +0000
Subject: [PATCH 051/193] fix: xmllib: CDATA sections are text

---
 ringing/dom_gdome.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/dom_gdome.cpp b/ringing/dom_gdome.cpp
index 9b195dd..7427eb4 100644
--- a/ringing/dom_gdome.cpp
+++ b/ringing/dom_gdome.cpp
@@ -259,7 +259,8 @@ string dom_element::get_content() const
     = gdome_n_firstChild( GDOME_N(pimpl->elt), &pimpl->exc );
 
   while (t) {
-    if ( gdome_n_nodeType(t, &pimpl->exc) == GDOME_TEXT_NODE )
+    unsigned short type = gdome_n_nodeType(t, &pimpl->exc);
+    if ( type == GDOME_TEXT_NODE || type == GDOME_CDATA_SECTION_NODE )
       value += TRANSCODE_I( gdome_cd_data( GDOME_CD(t), &pimpl->exc ) );
 
     GdomeNode* next = gdome_n_nextSibling( t, &pimpl->exc );
-- 
2.43.0


From 61ef4e8c5fc3e613ccde439a36ba86207eaa0f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 052/193] fix: unprintable characters in printed text were
 written as malformed escapes

A PostScript or PDF escape is a backslash and three octal digits, but they
were padded with spaces, and characters above 127 were written as negative
numbers.
---
 ringing/print_pdf.cpp | 4 +++-
 ringing/print_ps.cpp  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ringing/print_pdf.cpp b/ringing/print_pdf.cpp
index 7d2e50b..3cab23f 100644
--- a/ringing/print_pdf.cpp
+++ b/ringing/print_pdf.cpp
@@ -194,7 +194,9 @@ void pdf_file::output_string(const string& s)
 	if(isprint(*i))
 	  os << *i;
 	else
-	  os << '\\' << setw(3) << static_cast<int>(*i);
+	  os << '\\' << setfill('0') << setw(3) 
+	     << static_cast<int>(static_cast<unsigned char>(*i)) 
+	     << setfill(' ');
 	break;
     }
   }
diff --git a/ringing/print_ps.cpp b/ringing/print_ps.cpp
index b095f4d..1276865 100644
--- a/ringing/print_ps.cpp
+++ b/ringing/print_ps.cpp
@@ -249,7 +249,9 @@ void printpage_ps::write_string(const string& s)
 	if(isprint(*i))
 	  os << *i;
 	else
-	  os << '\\' << setw(3) << static_cast<int>(*i);
+	  os << '\\' << setfill('0') << setw(3) 
+	     << static_cast<int>(static_cast<unsigned char>(*i)) 
+	     << setfill(' ');
 	break;
     }
   }
-- 
2.43.0


From ab2ba7259affa957663f6b22def62b1d2df104d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 053/193] fix: text on a PDF page after some rows was spaced
 out

The spacing of the characters of rows stayed set for whatever came after.
---
 ringing/print_pdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/print_pdf.cpp b/ringing/print_pdf.cpp
index 3cab23f..f84c06e 100644
--- a/ringing/print_pdf.cpp
+++ b/ringing/print_pdf.cpp
@@ -284,7 +284,7 @@ void printpage_pdf::text(const string t, const dimension& x,
   
   f << "q "; set_colour(s.col, true);
   f << "BT\n/"
-    << f.get_font(cw.font()) << ' ' << (s.size / 10.0) << " Tf\n"
+    << f.get_font(cw.font()) << ' ' << (s.size / 10.0) << " Tf 0 Tc\n"
     << x1 << ' ' << y.in_points() << " Td\n";
   f.output_string(t);
   f << " Tj\n"
-- 
2.43.0


From 34354dcc9f6e3ffa2117518fd79b1fa8e2a9168e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 054/193] fix: place bell 10 was not squashed into its circle
 in PDF

---
 ringing/print_pdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/print_pdf.cpp b/ringing/print_pdf.cpp
index f84c06e..7e14c81 100644
--- a/ringing/print_pdf.cpp
+++ b/ringing/print_pdf.cpp
@@ -525,7 +525,7 @@ void printrow_pdf::placebell(int i)
     tb.x = (lastrow.bells() + 0.5f) * opt.xspace.in_points();
     tb.y = (count - 1) * opt.yspace.in_points();
     tb.al = text_style::centre;
-    tb.squash = (j >= 10);
+    tb.squash = (j >= 9);
     tb.s = make_string() << j+1;
     text_bits.push_back(tb);
   }
-- 
2.43.0


From 9b02bbe358bbbbcd0f6be1d0f8d5ab204e19550c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 055/193] fix: malformed structuring comments in PostScript

The end of file comment was run on to that of the fonts if there were none,
and the first page of a landscape document had no number.
---
 ringing/print_ps.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ringing/print_ps.cpp b/ringing/print_ps.cpp
index 1276865..4783780 100644
--- a/ringing/print_ps.cpp
+++ b/ringing/print_ps.cpp
@@ -174,7 +174,7 @@ printpage_ps::printpage_ps(ostream& o, const dimension& page_height)
 {
   pages = 1;
   os << "%!PS-Adobe-3.0\n" << "%%Pages: (atend)\n%%Orientation: Landscape\n"
-     << header_string << def_string << "%%Page: 1\nsave\n";
+     << header_string << def_string << "%%Page: 1 1\nsave\n";
   ph = static_cast<int>(page_height.in_points());
   landscape_mode();
 }
@@ -199,9 +199,8 @@ printpage_ps::~printpage_ps()
     os << " font ";
     copy(used_fonts.begin(), used_fonts.end(), 
 	 ostream_iterator<string>(os, " "));
-    os << '\n';
   } 
-  os << "%%EOF\n";
+  os << "\n%%EOF\n";
 }
 
 void printpage_ps::new_page()
-- 
2.43.0


From b6bcee9805b88beac94433aecbc91aeb52afa77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:01 +0000
Subject: [PATCH 056/193] fix: place bells of a method without working bells
 were left undefined

The number of the bell was never set if the lead head was rounds.
---
 ringing/printm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/printm.cpp b/ringing/printm.cpp
index aae9104..f3360f2 100644
--- a/ringing/printm.cpp
+++ b/ringing/printm.cpp
@@ -63,6 +63,7 @@ void printmethod::defaults()
   huntstyle.crossing = false;
 
   opt.lines.clear();
+  placebells = -1;
   bool found_working_bell = false;
   for(bell b(0); b < m->bells(); ++b) {
     if(r[b] == b)
-- 
2.43.0


From 693ca901e1e71607d116b23647d822fb5c9fcd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 057/193] fix: numbers and calls left out when printing very
 short leads

With one change in a lead the lead heads were not printed, and with two the
calling positions were not.
---
 ringing/printm.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ringing/printm.cpp b/ringing/printm.cpp
index f3360f2..1520fc3 100644
--- a/ringing/printm.cpp
+++ b/ringing/printm.cpp
@@ -161,14 +161,15 @@ void printmethod::print(printpage& pp)
 	      pr.placebell(placebells);
 	    if(!(opt.flags & printrow::options::numbers))
 	      pr.dot(-1);
-	  } else if(i == (int) (b.size() - 2)) {
+	  }
+	  if(i == (int) (b.size() - 2)) {
 		  // print calling positions
 		  if (char pos=call(ic++)) {
 			  pr.text(string("-")+pos,opt.xspace/2,text_style::left,false,true);
 //			  pr.text(string("-")+pos,0,text_style::left,false,true);
 		  }
 	  }
-	  else if(i == (int) (b.size() - 1)) {
+	  if(i == (int) (b.size() - 1)) {
 	    if(number_mode == miss_lead) {
 	      // Lead head - print the numbers
 	      opt.flags &= ~printrow::options::miss_numbers;
-- 
2.43.0


From 686adcd0ad1deb9b2655e9b9238715e0dc8389c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 058/193] fix: dimension::write put a null character in the
 string

---
 ringing/dimension.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/dimension.cpp b/ringing/dimension.cpp
index cc9f2aa..32a7d7d 100644
--- a/ringing/dimension.cpp
+++ b/ringing/dimension.cpp
@@ -83,7 +83,7 @@ ostream& operator<<(ostream& o, const dimension& d)
 
 string& dimension::write(string& s) const
 {
-  return s = make_string() << *this << ends;
+  return s = make_string() << *this;
 }
 
 
-- 
2.43.0


From 73434ffb297debe7b08e57e53400bb61d59cf44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 059/193] fix: dimensions between -1 and 0 were written without
 their sign

---
 ringing/dimension.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/dimension.cpp b/ringing/dimension.cpp
index 32a7d7d..e2fc369 100644
--- a/ringing/dimension.cpp
+++ b/ringing/dimension.cpp
@@ -75,6 +75,7 @@ ostream& operator<<(ostream& o, const dimension& d)
   int q = (d.n - r) / d.d;
   if(q != 0) o << q;
   if(q != 0 && r != 0) o << ' ';
+  if(q == 0 && r < 0) o << '-';
   if(r < 0) r = -r;
   if(r != 0) o << r << '/' << d.d;
   o << ' ' << dimension::unit_strings[d.u];
-- 
2.43.0


From b874f9be66de209f49e46ade84bf7aeb7961bfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 060/193] fix: dimensions with a zero denominator or numbers
 too large were read

They divided by zero or overflowed, and now are bad formats.
---
 ringing/dimension.cpp | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/ringing/dimension.cpp b/ringing/dimension.cpp
index e2fc369..c356b3b 100644
--- a/ringing/dimension.cpp
+++ b/ringing/dimension.cpp
@@ -25,8 +25,10 @@
 
 #if RINGING_OLD_C_INCLUDES
 #include <ctype.h>
+#include <limits.h>
 #else
 #include <cctype>
+#include <climits>
 #endif
 #include <ringing/streamutils.h>
 #include <ringing/dimension.h>
@@ -88,6 +90,24 @@ string& dimension::write(string& s) const
 }
 
 
+// Read one more digit into a number, and check that it still fits
+static bool add_digit(int& a, char c)
+{
+  int digit = c - '0';
+  if(a > (INT_MAX - digit) / 10) return false;
+  a = 10*a + digit;
+  return true;
+}
+
+// Read a number; it must start with a digit.
+static bool read_number(const char *&s, int& a)
+{
+  if(!isdigit(*s)) return false;
+  a = 0;
+  while(isdigit(*s)) if(!add_digit(a, *s++)) return false;
+  return true;
+}
+
 void dimension::read(const char *s)
 {
   int a, b, c;
@@ -99,35 +119,32 @@ void dimension::read(const char *s)
 
   // Now a number
   while(isspace(*s)) s++;
-  if(!isdigit(*s)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
-  a = *s++ - '0';
-  while(isdigit(*s)) a = 10*a + (*s++ - '0');
+  if(!read_number(s, a)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
   if(*s == '.') { // We have a number in decimal format
     s++;
     b = 1;
-    while(isdigit(*s)) { a = 10*a + (*s++ - '0'); b = 10*b; }
+    while(isdigit(*s))
+      if(!add_digit(a, *s++) || !add_digit(b, '0'))
+	RINGING_THROW_OR_RETURN_VOID( bad_format() );
     read_units(s);
     n = negative ? -a : a; d = b;
   } else { // Look for a fractional part
     while(isspace(*s)) s++;
     if(isdigit(*s)) { // Found a fractional part
-      b = *s++ - '0';
-      while(isdigit(*s)) b = 10*b + (*s++ - '0');
+      if(!read_number(s, b)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
       while(isspace(*s)) s++;
       if(*s++ != '/') RINGING_THROW_OR_RETURN_VOID( bad_format() );
       while(isspace(*s)) s++;
-      if(!isdigit(*s)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
-      c = *s++ - '0';
-      while(isdigit(*s)) c = 10*c + (*s++ - '0');
+      if(!read_number(s, c) || c == 0 || a > (INT_MAX - b) / c)
+	RINGING_THROW_OR_RETURN_VOID( bad_format() );
       read_units(s);
       n = a * c + b; d = c;
       if(negative) n = -n;
     } else if(*s == '/') { // Just a fractional part
       s++;
       while(isspace(*s)) s++;
-      if(!isdigit(*s)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
-      c = *s++ - '0';
-      while(isdigit(*s)) c = 10*c + (*s++ - '0');
+      if(!read_number(s, c) || c == 0)
+	RINGING_THROW_OR_RETURN_VOID( bad_format() );
       read_units(s);
       n = negative ? -a : a; d = c;     
     } else { // Just an integer
-- 
2.43.0


From 4d4f500d97765cf9c3e51f12c7447639d1e81bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:10 +0000
Subject: [PATCH 061/193] fix: read the upper limit of 'N to M rows' in gsiril

---
 apps/gsiril/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/parser.cpp b/apps/gsiril/parser.cpp
index 3414319..d9ff93e 100644
--- a/apps/gsiril/parser.cpp
+++ b/apps/gsiril/parser.cpp
@@ -401,7 +401,7 @@ statement msparser::parse_command( vector<token> const& cmd ) {
        && cmd[2].type() == tok_types::num_lit
        && cmd[3].type() == tok_types::name && cmd[3] == "rows" )
     return statement( new rows_stmt( string_to_int(cmd[0]),
-                                     string_to_int(cmd[1]) ) );
+                                     string_to_int(cmd[2]) ) );
 
   // Rounds directive
   if ( cmd.size() == 2 && cmd[0].type() == tok_types::name 
-- 
2.43.0


From 3f1c36684567b5e623266b4e3f6b6af9ec75a8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:10 +0000
Subject: [PATCH 062/193] fix: count each gsiril node once, so that an odd
 --node-limit works

---
 apps/gsiril/execution_context.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/apps/gsiril/execution_context.cpp b/apps/gsiril/execution_context.cpp
index c10ec4d..715d864 100644
--- a/apps/gsiril/execution_context.cpp
+++ b/apps/gsiril/execution_context.cpp
@@ -148,7 +148,6 @@ bool execution_context::define_symbol( const pair< const string, expression > &d
 
 void execution_context::increment_node_count() const
 {
-  ++node_count;
   if (++node_count == args.node_limit)
     throw runtime_error("Node count exceeded");
 }
-- 
2.43.0


From 6c4ee39329cf552540138d39d1dfbda7b041c8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:10 +0000
Subject: [PATCH 063/193] fix: report division by zero in gsiril expressions

---
 apps/gsiril/expression.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apps/gsiril/expression.cpp b/apps/gsiril/expression.cpp
index b6e4236..ec35794 100644
--- a/apps/gsiril/expression.cpp
+++ b/apps/gsiril/expression.cpp
@@ -31,6 +31,7 @@
 #include <ringing/music.h>
 #include <ringing/place_notation.h>
 #include <ringing/lexical_cast.h>
+#include <limits>
 
 
 RINGING_USING_NAMESPACE
@@ -819,6 +820,8 @@ void mod_node::debug_print( ostream &os ) const
 RINGING_LLONG mod_node::int_evaluate( proof_context& ctx ) const
 {
   RINGING_LLONG l = left.int_evaluate(ctx), r = right.int_evaluate(ctx);
+  if (r == 0) throw runtime_error("Division by zero");
+  if (r == -1) return 0; // avoid overflow if l is the most negative integer
   return l % r;
 }
 
@@ -832,6 +835,9 @@ void div_node::debug_print( ostream &os ) const
 RINGING_LLONG div_node::int_evaluate( proof_context& ctx ) const
 {
   RINGING_LLONG l = left.int_evaluate(ctx), r = right.int_evaluate(ctx);
+  if (r == 0) throw runtime_error("Division by zero");
+  if (r == -1 && l == numeric_limits<RINGING_LLONG>::min())
+    throw runtime_error("Integer overflow in division");
   return l / r;
 }
 
-- 
2.43.0


From 504a3a42110488138ed177e75b08c06d8f2fdb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:10 +0000
Subject: [PATCH 064/193] fix: make arithmetic operators left associative in
 gsiril

---
 apps/gsiril/parser.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/apps/gsiril/parser.cpp b/apps/gsiril/parser.cpp
index d9ff93e..5991a87 100644
--- a/apps/gsiril/parser.cpp
+++ b/apps/gsiril/parser.cpp
@@ -835,11 +835,12 @@ msparser::make_expr( vector< token >::const_iterator first,
           ? replacement_node::end : replacement_node::begin ) );
   }
 
-  // Addition operators are next
+  // Addition operators are next.  They are left associative, as are the
+  // multiplication operators, below, so we split at the last one.
   vector<tok_types::enum_t> addops;
   addops.push_back( tok_types::plus );
   addops.push_back( tok_types::minus );
-  if ( find_one_of( first, last, addops, split ) ) {
+  if ( find_one_of( first, last, addops, split, find_last ) ) {
     if ( split->type() == tok_types::plus ) {
       check_bin_op( first, split, last, "+" );
       return expression( new add_node( make_expr( first, split ),
@@ -851,13 +852,17 @@ msparser::make_expr( vector< token >::const_iterator first,
     }
   }
 
-  // Now multiplication operators: currently only % and .
+  // Now multiplication operators: *, ., / and %.  The right-hand argument of
+  // . includes any that follow it, so that "Lead " . n % 7 works.
   vector<tok_types::enum_t> multops;
   multops.push_back( tok_types::times );
   multops.push_back( tok_types::append );
   multops.push_back( tok_types::divide );
   multops.push_back( tok_types::modulo );
-  if ( find_one_of( first, last, multops, split ) ) {
+  iter_t append_op;
+  bool has_append = find( first, last, tok_types::append, append_op );
+  if ( find_one_of( first, last, multops, split, 
+                    has_append ? find_first : find_last ) ) {
     switch ( split->type() ) {
       case tok_types::modulo:
         check_bin_op( first, split, last, "%" );
-- 
2.43.0


From fdf5586e220f222af1766b797c6003b13e779dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:10 +0000
Subject: [PATCH 065/193] fix: allow gsiril's at function to look at the last
 place

---
 apps/gsiril/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/functions.cpp b/apps/gsiril/functions.cpp
index 608c858..21102d5 100644
--- a/apps/gsiril/functions.cpp
+++ b/apps/gsiril/functions.cpp
@@ -46,7 +46,7 @@ class at_fn_impl : public fnnode {
     if (args.size() != 1)
       throw runtime_error("The at function takes one argument");
     int idx = args[0].int_evaluate(ctx);
-    if (idx < 1 || idx >= ctx.bells())
+    if (idx < 1 || idx > ctx.bells())
       throw runtime_error("Argument out of range in at function");
     row const& r = ctx.current_row();
     int rv = idx > r.bells() ? idx : r[idx-1]+1;
-- 
2.43.0


From 01d87237eddfadc7b769721fe3929785d65e4255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:10 +0000
Subject: [PATCH 066/193] fix: make gsiril's crus function find CRUs and not
 runs

---
 apps/gsiril/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/functions.cpp b/apps/gsiril/functions.cpp
index 21102d5..f7038b6 100644
--- a/apps/gsiril/functions.cpp
+++ b/apps/gsiril/functions.cpp
@@ -258,7 +258,7 @@ void register_functions( execution_context& ectx )
   ectx.define_symbol( pair< const string, expression >
     ( "backruns", expression( new runs_impl( music::at_back ) ) ) );
   ectx.define_symbol( pair< const string, expression >
-    ( "crus", expression( new runs_impl ) ) );
+    ( "crus", expression( new crus_impl ) ) );
   ectx.define_symbol( pair< const string, expression >
     ( "methname", expression( new methname_impl ) ) );
   ectx.define_symbol( pair< const string, expression >
-- 
2.43.0


From ddb19d3dd2f357af4e3d8aee3db65cf43fe354eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:10 +0000
Subject: [PATCH 067/193] fix: print nothing in gsiril for a row which does not
 match the row mask

---
 apps/gsiril/proof_context.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apps/gsiril/proof_context.cpp b/apps/gsiril/proof_context.cpp
index f910877..c252923 100644
--- a/apps/gsiril/proof_context.cpp
+++ b/apps/gsiril/proof_context.cpp
@@ -322,7 +322,11 @@ string proof_context::substitute_string( const string &str,
                  i != e; ++i) 
             os.out_stream() << ectx.get_args().bellfmt << *i;
         }
-        else return string();
+        else {
+          // Nothing is printed, not even a new line
+          if (no_nl) *no_nl = true;
+          return string();
+        }
 	break;
       case '$':
         // ${..} is disabled in MicroSiril syntax because it would be 
-- 
2.43.0


From 48cd3b2d30b6ef620c71bc31d13b00158e487035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:10 +0000
Subject: [PATCH 068/193] fix: define max_length in gsiril when there is no
 minimum length

---
 apps/gsiril/execution_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/execution_context.cpp b/apps/gsiril/execution_context.cpp
index 715d864..8b14458 100644
--- a/apps/gsiril/execution_context.cpp
+++ b/apps/gsiril/execution_context.cpp
@@ -71,7 +71,7 @@ execution_context::expected_length( pair<size_t, size_t> l )
 { 
   // Define min_length and max_length so they can be referenced by 
   // tooshort and toolong, respectively.
-  if (l.first && l.second) {
+  if (l.first || l.second) {
     sym_table.define
       ( pair<const string, expression>( "min_length", 
           expression( new integer_node(l.first) ) ) );
-- 
2.43.0


From 276337fddb76e2eb4ee62f5b6372e0c0e195a9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:10 +0000
Subject: [PATCH 069/193] fix: step over malformed place notation in gsiril's
 interactive mode

---
 apps/gsiril/parser.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/apps/gsiril/parser.cpp b/apps/gsiril/parser.cpp
index 5991a87..dae363b 100644
--- a/apps/gsiril/parser.cpp
+++ b/apps/gsiril/parser.cpp
@@ -114,7 +114,19 @@ private:
     string::const_iterator j(i);
     if ( *j != '&' && *j != '+' ) return failed; ++j;
     while (j != e) {
-      if ( *j == '{' ) j = read_bell_expr(j, e);
+      if ( *j == '{' ) {
+        try {
+          j = read_bell_expr(j, e);
+        }
+        catch ( bell::invalid const& ) {
+          // Take the rest of the line as the token: the error is reported 
+          // when it is interpreted.  Throwing now would leave us at the 
+          // start of the same token, and report the error for ever in 
+          // interactive mode.
+          while ( j != e && *j != '\n' ) ++j;
+          break;
+        }
+      }
       else if ( *j == '.' || *j == '-' || isalnum(*j) ) ++j;
       else break;
     }
-- 
2.43.0


From e605a88879e50c674d0ebdd9717a846bea3fad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:55 +0000
Subject: [PATCH 070/193] fix: handle escape sequences in gsiril's echo
 statement

---
 apps/gsiril/statement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/statement.cpp b/apps/gsiril/statement.cpp
index 32b8b5e..cfe9765 100644
--- a/apps/gsiril/statement.cpp
+++ b/apps/gsiril/statement.cpp
@@ -263,7 +263,7 @@ void echo_stmt::execute( execution_context& e )
   if ( e.get_args().quiet < 2 || mode != echo ) p.set_silent( false );
 
   bool no_nl = false;
-  string str( expr.string_evaluate(p, &no_nl) );
+  string str( p.string_escapes( expr.string_evaluate(p, &no_nl) ) );
 
   ostream& os = mode == echo ? e.output() : cerr;
   os << str;
-- 
2.43.0


From 72bd56500d3e135e6c2b331dc27503a5386b017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:45 +0000
Subject: [PATCH 071/193] fix: do not print gsiril's echo statement with -qq

---
 apps/gsiril/statement.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apps/gsiril/statement.cpp b/apps/gsiril/statement.cpp
index cfe9765..a02f0f9 100644
--- a/apps/gsiril/statement.cpp
+++ b/apps/gsiril/statement.cpp
@@ -265,9 +265,11 @@ void echo_stmt::execute( execution_context& e )
   bool no_nl = false;
   string str( p.string_escapes( expr.string_evaluate(p, &no_nl) ) );
 
-  ostream& os = mode == echo ? e.output() : cerr;
-  os << str;
-  if (!no_nl) os << '\n';
+  if ( mode != echo || e.get_args().quiet < 2 ) {
+    ostream& os = mode == echo ? e.output() : cerr;
+    os << str;
+    if (!no_nl) os << '\n';
+  }
 
   if ( mode == error ) {
     if ( e.interactive() ) e.set_failure();
-- 
2.43.0


From 2998b90a8d25d171f87f442410af0c212ff1d665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 072/193] fix: prove the first symbol for every method when
 gsiril is a filter

---
 apps/gsiril/execution_context.h | 2 +-
 apps/gsiril/main.cpp            | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/apps/gsiril/execution_context.h b/apps/gsiril/execution_context.h
index b59db98..85ed478 100644
--- a/apps/gsiril/execution_context.h
+++ b/apps/gsiril/execution_context.h
@@ -92,7 +92,7 @@ public:
   RINGING_ULLONG get_node_count() const { return node_count; }
   
   bool done_one_proof() const { return done_proof; }
-  void set_done_proof() { done_proof = true; }
+  void set_done_proof( bool b = true ) { done_proof = b; }
 
   pair<size_t,size_t> expected_length() const { return args.expected_length; }
   pair<size_t,size_t> expected_length(pair<size_t, size_t> l);
diff --git a/apps/gsiril/main.cpp b/apps/gsiril/main.cpp
index 46390a4..b9e036e 100644
--- a/apps/gsiril/main.cpp
+++ b/apps/gsiril/main.cpp
@@ -195,6 +195,7 @@ bool prove_stream( execution_context& e, scoped_pointer<istream> const& in,
                    string const& filename, const arguments& args )
 {
   e.set_failure(false); // unset failure state
+  e.set_done_proof(false);
 
   // IN is null if -N is used without -e or -f
   bool read_anything 
@@ -246,6 +247,7 @@ bool run( execution_context& e, const arguments& args )
 void filter( execution_context& e, const arguments& args )
 {
   litelib in( args.bells, cin );
+  bool first = true;
   for ( library::const_iterator i=in.begin(), ei=in.end(); i!=ei; ++i ) {
     method m;
     try {
@@ -286,6 +288,11 @@ void filter( execution_context& e, const arguments& args )
                      expression( new string_node
                                    ( i->get_facet<litelib::payload>() ) ) ) );
 
+    // The symbols for the method are not the first symbol in the input.
+    // The source is the same each time, so its first symbol stays the same.
+    if (first) e.undefine_symbol( "__first__" );
+    first = false;
+
     if ( run( e, args ) )
        // Add M_PLUS in case our output is being fed back as a definition.
        cout << i->meth().format( method::M_DASH | method::M_SYMMETRY 
-- 
2.43.0


From dba28e7d1d485b0262c67bf60cfdb5a9707a8231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:41 +0000
Subject: [PATCH 073/193] fix: ignore the case of gsiril symbols in strings and
 options with -I

---
 apps/gsiril/main.cpp          | 11 +++++++++--
 apps/gsiril/proof_context.cpp |  5 ++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/apps/gsiril/main.cpp b/apps/gsiril/main.cpp
index b9e036e..c607202 100644
--- a/apps/gsiril/main.cpp
+++ b/apps/gsiril/main.cpp
@@ -102,7 +102,8 @@ void initialise( execution_context& ex, const arguments& args )
       exit(2);
     }
     pair<const string, expression>
-      defn( string(*i, 0, j), 
+      defn( args.case_insensitive ? lower_case( string(*i, 0, j) )
+                                  : string(*i, 0, j),
             expression( new string_node( string(*i, j+1) ) ) );
     ex.define_symbol(defn);
   }
@@ -311,8 +312,14 @@ int main( int argc, char *argv[] )
   try {
     arguments args( argc, argv );
 
-    if ( args.case_insensitive ) 
+    if ( args.case_insensitive ) {
       args.prove_symbol = lower_case( args.prove_symbol );
+      args.lead_symbol = lower_case( args.lead_symbol );
+      args.lh_symbol = lower_case( args.lh_symbol );
+      args.payload_symbol = lower_case( args.payload_symbol );
+      for ( size_t i=0; i < args.trace_symbols.size(); ++i )
+        args.trace_symbols[i] = lower_case( args.trace_symbols[i] );
+    }
 
     execution_context e( cout, args );
     initialise(e, args);
diff --git a/apps/gsiril/proof_context.cpp b/apps/gsiril/proof_context.cpp
index c252923..ffd8c88 100644
--- a/apps/gsiril/proof_context.cpp
+++ b/apps/gsiril/proof_context.cpp
@@ -41,6 +41,7 @@
                        // of bug in MSVC 6.0
 #include "proof_context.h"
 #include "execution_context.h"
+#include "stringutils.h"
 
 #include <ringing/streamutils.h>
 
@@ -338,7 +339,9 @@ string proof_context::substitute_string( const string &str,
           string::const_iterator j = std::find(i+2, e, '}');
           if (j == e) throw runtime_error("Incomplete variable interpolation "
                                           "in string '" + str + "'");
-          expression e( lookup_symbol( string(i+2, j) ) );
+          string name(i+2, j);
+          if (ectx.get_args().case_insensitive) name = lower_case(name);
+          expression e( lookup_symbol(name) );
           proof_context ctx2( silent_clone() );
           os << e.string_evaluate(ctx2);
           i = j;
-- 
2.43.0


From 9a5e12b354f35901cf869efe10b1dea2345d6090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:18 +0000
Subject: [PATCH 074/193] fix: rowcalc: set difference compares rows whatever
 tenors they omit

---
 apps/utils/row_calc.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index 19dc0f6..aa2799c 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -225,19 +225,27 @@ private:
       if (rhs.count_vectors()) 
         try {
           while (true) 
-            exclude.insert( rhs.evaluate() ); 
+            exclude.insert( without_tenors( rhs.evaluate() ) ); 
         } 
         catch (vector_end) {}
       else
-        exclude.insert( rhs.evaluate() );
+        exclude.insert( without_tenors( rhs.evaluate() ) );
       started = true;
     }
 
     row r;
     do { 
       r = lhs.evaluate();
-    } while ( lhs.count_vectors() && exclude.count(r) );
-    if ( exclude.count(r) ) throw vector_end();
+    } while ( lhs.count_vectors() && exclude.count( without_tenors(r) ) );
+    if ( exclude.count( without_tenors(r) ) ) throw vector_end();
+    return r;
+  }
+
+  // Rows may be given without their tenors
+  static row without_tenors( row r ) {
+    size_t n = r.bells();
+    while ( n > 1 && r[n-1] == bell(n-1) ) --n;
+    r.resize(n);
     return r;
   }
 
-- 
2.43.0


From 8144097e1bf24d7498d09c72b57373d3ef626f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:18 +0000
Subject: [PATCH 075/193] fix: rowcalc: restart everything within a product of
 sets

---
 apps/utils/row_calc.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index aa2799c..827d119 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -262,7 +262,7 @@ public:
   {}
 
 private:
-  virtual void restart() { lhs.restart(); rhs.restart(); }
+  virtual void restart() { lhs.restart(); rhs.restart(); l = r = row(); }
   virtual int count_vectors() const
     { return lhs.count_vectors() + rhs.count_vectors(); }
   virtual bool reads_stdin() const
@@ -296,7 +296,7 @@ public:
   {}
 
 private:
-  virtual void restart() { lhs.restart(); }
+  virtual void restart() { lhs.restart(); rhs.restart(); l = r = row(); }
   virtual int count_vectors() const 
     { return lhs.count_vectors() + rhs.count_vectors(); }
   virtual bool reads_stdin() const 
@@ -353,7 +353,11 @@ public:
   set_node( list<row_calc::expr> const& l ) : l(l), started(false) {}
 
 private:
-  virtual void restart() { started = false; }
+  virtual void restart() { 
+    started = false; 
+    for ( list<row_calc::expr>::iterator it=l.begin(); it!=l.end(); ++it ) 
+      it->restart();
+  }
   virtual int count_vectors() const
   {
     int v = 1;
-- 
2.43.0


From 353c0ae9458490cf82d4be8f43db6816c80ce812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:18 +0000
Subject: [PATCH 076/193] fix: rowcalc: a file is not standard input, so it is
 read again for each product

---
 apps/utils/row_calc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index 827d119..097d740 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -490,7 +490,7 @@ public:
 
 private:
   virtual int count_vectors() const { return 1; }
-  virtual bool reads_stdin() const { return !in_owner; }
+  virtual bool reads_stdin() const { return file == "-"; }
 
   virtual void restart() { 
     if (reads_stdin()) 
-- 
2.43.0


From 48a6b3e9dfe9c30af17d602ebe7228cc48415aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:18 +0000
Subject: [PATCH 077/193] fix: rowcalc: read a file that does not end with a
 newline

---
 apps/utils/row_calc.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index 097d740..a12c1bb 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -523,11 +523,12 @@ private:
     }
 
     char const seps[] = " ,;:\t\r\n";
-    while ( *in && strchr( seps, in->peek() ) ) in->get();
+    while ( *in && in->peek() != EOF && strchr( seps, in->peek() ) ) in->get();
     if ( !*in || in->peek() == EOF ) throw vector_end();
 
     string r;
-    while ( *in && !strchr( seps, in->peek() ) ) r += (char)in->get(); 
+    while ( *in && in->peek() != EOF && !strchr( seps, in->peek() ) ) 
+      r += (char)in->get(); 
     return row(r);
   }
 
-- 
2.43.0


From 6d2ae6796182cac3fb28564ccb3ffdf732a3923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:18 +0000
Subject: [PATCH 078/193] fix: rowcalc: negative powers are not set differences

---
 apps/utils/row_calc.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index a12c1bb..7cbde46 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -812,7 +812,11 @@ row_calc::expr rc_parser::parse_expr( iter_t first, iter_t last )
   iter_t split;
   tok_types::enum_t setdiff[1]
     = { tok_types::minus };
-  if ( find_last( first, last, setdiff, split ) ) 
+  bool found = find_last( first, last, setdiff, split );
+  // The sign of a power is not a set difference
+  while ( found && split != first && (split-1)->type() == tok_types::power )
+    found = find_last( first, split-1, setdiff, split );
+  if ( found ) 
     {
       check_binary_expr( first, split, last, string(1, (char)split->type()) );
      
-- 
2.43.0


From 3767b6cc3547d3fe6ec52248add94a570433a00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:18 +0000
Subject: [PATCH 079/193] fix: rowcalc: a row less itself is the empty set

---
 apps/utils/row_calc.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index 7cbde46..85eb44f 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -820,9 +820,14 @@ row_calc::expr rc_parser::parse_expr( iter_t first, iter_t last )
     {
       check_binary_expr( first, split, last, string(1, (char)split->type()) );
      
+      // A row is treated as the set containing just that row
+      row_calc::expr lhs( parse_expr( first, split ) );
+      if ( !lhs.count_vectors() )
+        lhs = row_calc::expr
+          ( new set_node( list<row_calc::expr>( 1, lhs ) ) );
+
       return row_calc::expr
-        ( new setdiff_node( parse_expr( first, split ),
-                            parse_expr( split+1, last ) ) );
+        ( new setdiff_node( lhs, parse_expr( split+1, last ) ) );
     }
 
   tok_types::enum_t multops[3] 
-- 
2.43.0


From 69ae8dca6705cc1139f7c26f6a9a7f89861e00c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:18 +0000
Subject: [PATCH 080/193] fix: rowcalc: report errors in evaluating an
 expression

---
 apps/rowcalc/rowcalc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/rowcalc/rowcalc.cpp b/apps/rowcalc/rowcalc.cpp
index 95c5cef..8ba0eed 100644
--- a/apps/rowcalc/rowcalc.cpp
+++ b/apps/rowcalc/rowcalc.cpp
@@ -146,6 +146,10 @@ bool evaluate_expr( arguments const& args, string const& expr )
     cerr << "Invalid row produced: " << ex.what() << "\n";
     return false;
   }
+  catch ( exception const& ex ) {
+    cerr << "Error evaluating expression: " << ex.what() << "\n";
+    return false;
+  }
 
   return true;
 }
-- 
2.43.0


From adaa8c5551bf282a596d4a96939e2f11e5cb7b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:18 +0000
Subject: [PATCH 081/193] fix: do not look before the start of an empty string
 for whitespace

---
 apps/utils/stringutils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/utils/stringutils.cpp b/apps/utils/stringutils.cpp
index 549fb1c..5857e33 100644
--- a/apps/utils/stringutils.cpp
+++ b/apps/utils/stringutils.cpp
@@ -59,7 +59,7 @@ void trim_leading_whitespace( string &line )
 void trim_trailing_whitespace( string &line )
 {
   string::iterator b( line.begin() ), j( line.end() );
-  while ( j-1 != b && isspace(*(j-1)) ) --j;
+  while ( j != b && isspace(*(j-1)) ) --j;
   line = string( b, j );
 }
 
-- 
2.43.0


From 22af89478cf78b7ebd8e20098a5331294f8e96b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 082/193] fix: label the cosets of rows which are on fewer
 bells than the group

---
 ringing/group.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ringing/group.cpp b/ringing/group.cpp
index d187c2a..a433f93 100644
--- a/ringing/group.cpp
+++ b/ringing/group.cpp
@@ -281,14 +281,16 @@ row group::rcoset_label( row const& r ) const
   if ( size() >= 6 && is_direct_product_of_symmetric_groups( o, size() ) ) 
   {
     // Use an O(1) algorithm.
-    vector<bell> label( r.bells() );
+    // The row may be on more or fewer bells than the group.
+    row const rr( r * row( bells() ) );
+    vector<bell> label( rr.begin(), rr.end() );
 
     for ( vector< vector<bell> >::const_iterator i=o.begin(), e=o.end(); 
             i != e; ++i ) {
       size_t n = i->size();
       vector<bell> v;
       for ( size_t j=0; j<n; ++j )
-        v.push_back( r.find( (*i)[j] ) );
+        v.push_back( rr.find( (*i)[j] ) );
 
       sort( v.begin(), v.end() );
       for ( size_t j=0; j<n; ++j ) {
-- 
2.43.0


From d07cc8c36fe4a0f3faa37cd31ec770a730ff3309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:00 +0000
Subject: [PATCH 083/193] fix: methsearch: recognise the start row when it is
 on fewer bells or not the label of its coset

---
 apps/methsearch/prog_args.cpp | 15 ++++++++-------
 apps/methsearch/prog_args.h   |  1 +
 apps/methsearch/search.cpp    |  2 +-
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/apps/methsearch/prog_args.cpp b/apps/methsearch/prog_args.cpp
index cee3a7c..0e4f8bf 100644
--- a/apps/methsearch/prog_args.cpp
+++ b/apps/methsearch/prog_args.cpp
@@ -123,12 +123,12 @@ bool falseness_opt::process( const string &arg, const arg_parser & ) const
     }
   else if ( arg.size() > 2 && arg[0] == 's' && arg[1] == '=' )
     {
-      if ( args.start_row.bells() ) {
+      if ( args.orig_start_row.bells() ) {
         cerr << "Multiple -Fs options are not currently supported\n";
         return false;
       }
       try {
-        args.start_row = row( arg.substr(2) );
+        args.orig_start_row = row( arg.substr(2) );
       }
       catch ( exception const& e ) { 
         cerr << "Error parsing row in -Fs option: " << e.what() << "\n";
@@ -1061,6 +1061,12 @@ bool arguments::validate_bells( arg_parser* ap )
 //    return false;
 //  }
 
+  if ( orig_start_row.bells() > bells ) {
+    if (ap) ap->error( "The start row is on too many bells" );
+    return false;
+  }
+  start_row = orig_start_row * row(bells);
+
   if ( orig_avoid_rows.size() ) {
     avoid_rows.clear();
     for ( set<row>::const_iterator 
@@ -1203,11 +1209,6 @@ bool arguments::validate_bells( arg_parser* ap )
     return false;
   }
 
-  if ( start_row.bells() > bells ) {
-    if (ap) ap->error( "The start row is on too many bells" );
-    return false;
-  }
-
   return true;
 }
 
diff --git a/apps/methsearch/prog_args.h b/apps/methsearch/prog_args.h
index f3be6cf..9fa61d2 100644
--- a/apps/methsearch/prog_args.h
+++ b/apps/methsearch/prog_args.h
@@ -133,6 +133,7 @@ struct arguments
   init_val<int,1>      n_extents;
   string               allowed_falseness; 
 
+  row                  orig_start_row;
   row                  start_row;
   vector<row>          pends_generators;
   group                pends;
diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 9a5b083..2ca7456 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -397,7 +397,7 @@ public:
 
   bool prove_lh( row const& lh ) {
     row const r2 = args.pends.rcoset_label(lh);
-    if ( r2 != args.start_row )
+    if ( r2 != args.pends.rcoset_label(args.start_row) )
       p.add_row(r2);
     return p.truth();
   }
-- 
2.43.0


From fcebfcbb88469852e88b47a27d943cacb5c48c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:18 +0000
Subject: [PATCH 084/193] fix: methsearch: apply every position of a mask when
 searching for principles

---
 apps/methsearch/mask.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 9d95256..1e54c5a 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -817,19 +817,23 @@ bool parse_mask( arguments &args )
   assert( above.size() == size_t(lead_len) );
   assert( below.size() == size_t(lead_len) );
 
+  // The changes allowed by a ? in a principle: one list for each stroke if -w
+  // is given, and otherwise just one.
+  vector<change> any_change[2];
+
   for ( int i=0; i<lead_len; ++i ) {
+    args.allowed_changes.push_back( vector<change>() );
+    vector<change>& changes_to_try = args.allowed_changes.back();
+
     // Don't recalculate for every place in a principle: this is very 
     // inefficient when doing -IAU0 -Fx type filters.
-    if (args.hunt_bells 
-         || args.allowed_changes.size() < (args.right_place ? 2 : 1)) 
-      args.allowed_changes.push_back( vector<change>() );
-    else 
-      args.allowed_changes.push_back( 
-        args.allowed_changes[args.right_place ? i%2 : 0] );
+    vector<change>* const any 
+      = args.hunt_bells || above[i].size() ? NULL 
+      : &any_change[args.right_place ? i%2 : 0];
 
-    vector<change>& changes_to_try = args.allowed_changes.back();
-
-    if (changes_to_try.empty()) {
+    if (any && any->size())
+      changes_to_try = *any;
+    else {
       if ( args.hunt_bells ) {
         vector<change>& changesa = above[i];
         vector<change>& changesb = below[i];
@@ -842,7 +846,7 @@ bool parse_mask( arguments &args )
    
         merge_changes( args, changes_to_try, changesa, changesb, i );
       }
-      else if (changes_to_try.empty()) { // principles
+      else { // principles
         if ( above[i].empty() )
           select_changes_prin( args, changes_to_try, i );
         else
@@ -858,6 +862,8 @@ bool parse_mask( arguments &args )
       if ( changes_to_try.empty() )
         throw mask_error( make_string() << "No such method can exist: "
                           "There no possible changes at position " << i );
+
+      if (any) *any = changes_to_try;
     }
   }
   return true;
-- 
2.43.0


From 5c70abcd7b14a824a0846274235d0895515eba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:30 +0000
Subject: [PATCH 085/193] fix: methsearch: do not find changes other than the
 complete ones given in a mask

---
 apps/methsearch/mask.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 1e54c5a..b6d3a62 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -838,6 +838,12 @@ bool parse_mask( arguments &args )
         vector<change>& changesa = above[i];
         vector<change>& changesb = below[i];
    
+        // If the mask has complete changes (rather than sections above and 
+        // below the treble), then these are the only ones allowed.
+        vector<change> given;
+        if ( args.mask.find('/') == string::npos )
+          given = above[i];
+
         // A ? above or below the treble
         if ( changesa.empty() ) 
           select_changes_above( args, changesa, i );
@@ -845,6 +851,15 @@ bool parse_mask( arguments &args )
           select_changes_below( args, changesb, i );
    
         merge_changes( args, changes_to_try, changesa, changesb, i );
+
+        if ( given.size() ) {
+          vector<change> merged;
+          merged.swap( changes_to_try );
+          for ( vector<change>::const_iterator 
+                  j(merged.begin()), e(merged.end()); j != e; ++j )
+            if ( find( given.begin(), given.end(), *j ) != given.end() )
+              changes_to_try.push_back( *j );
+        }
       }
       else { // principles
         if ( above[i].empty() )
-- 
2.43.0


From 46fa3a6dedcf29188e17703c26e542871c365bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:30 +0000
Subject: [PATCH 086/193] fix: methsearch: apply masks and prefixes to changes
 added to complete a symmetry

---
 apps/methsearch/search.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 2ca7456..53c9810 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -432,6 +432,19 @@ bool searcher::is_acceptable_method()
            compare_changes ) )
     return false;
 
+  // The changes that are added to complete a symmetry have not been tested 
+  // against the mask or the prefix. 
+  if ( args.mask != "*" )
+    for ( size_t i=0; i<m.size(); ++i ) {
+      vector<change> const& allowed = args.allowed_changes.at(i);
+      if ( find( allowed.begin(), allowed.end(), m[i] ) == allowed.end() )
+        return false;
+    }
+
+  for ( size_t i=0; i<m.size() && i<args.prefix.size(); ++i )
+    if ( m[i] != args.prefix[i] )
+      return false;
+
   if ( ! is_acceptable_leadhead( m.lh() ) )
     return false;
 
-- 
2.43.0


From 60624fe4477a15fc8b4815df41418e29a5d89711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:34 +0000
Subject: [PATCH 087/193] fix: methsearch: undo the changes added for symmetry
 relative to the start row

---
 apps/methsearch/search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 53c9810..d80c8fa 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -661,7 +661,7 @@ inline void searcher::pop_change( row const* r_old )
         && prv )
       prv->remove_row(r);
     if ( r_old ) r = *r_old;  
-    else r = args.pends.rcoset_label( m.lh() );
+    else r = args.pends.rcoset_label( args.start_row * m.lh() );
   }
 }
 
-- 
2.43.0


From 20d683897f8eaf2824a11eb6ed673214bee74286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:23 +0000
Subject: [PATCH 088/193] fix: methsearch: keep the start row unset unless one
 is given

---
 apps/methsearch/prog_args.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/prog_args.cpp b/apps/methsearch/prog_args.cpp
index 0e4f8bf..fa9e263 100644
--- a/apps/methsearch/prog_args.cpp
+++ b/apps/methsearch/prog_args.cpp
@@ -1065,7 +1065,7 @@ bool arguments::validate_bells( arg_parser* ap )
     if (ap) ap->error( "The start row is on too many bells" );
     return false;
   }
-  start_row = orig_start_row * row(bells);
+  start_row = orig_start_row.bells() ? orig_start_row * row(bells) : row();
 
   if ( orig_avoid_rows.size() ) {
     avoid_rows.clear();
-- 
2.43.0


From 9f441a89f4370067524427c603ee178424c41298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:05 +0000
Subject: [PATCH 089/193] fix: methsearch: do not expect a mask to have a
 symmetry that may be anywhere

---
 apps/methsearch/mask.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index b6d3a62..51aaaf5 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -806,7 +806,8 @@ bool parse_mask( arguments &args )
   if ( !read_and_expand_blocks( args, above, below ) )
     return false;
 
-  if ( args.lead_len && !is_mask_consistent(args, above, below) )
+  if ( args.lead_len && !args.floating_sym 
+       && !is_mask_consistent(args, above, below) )
     throw mask_error
       ( "Some of the required changes specified are inconsistent "
         "with the specified symmetries" );
-- 
2.43.0


From a09dbb50682d49acc708c98c9af9dd4674cc8070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 090/193] fix: methsearch: count the places made around the
 lead end when symmetric with an even number of hunts

---
 apps/methsearch/search.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index d80c8fa..bef341a 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -432,6 +432,23 @@ bool searcher::is_acceptable_method()
            compare_changes ) )
     return false;
 
+  // When the palindromic symmetry point is after the lead end, the places that
+  // are made around the lead end are not known until the lead is complete.
+  if ( args.max_consec_blows && args.sym && sym_offset )
+    for ( int i=0; i<bells; ++i ) {
+      // The change which --long-le-place exempts
+      size_t const end = args.long_le_place ? size_t(sym_offset-1) : m.size();
+      size_t after = 0, before = 0;
+      while ( after < end && m[after].findplace(i) ) 
+        ++after;
+      while ( after + before < m.size() 
+              && m[m.size()-1-before].findplace(i) ) 
+        ++before;
+
+      if ( before && after && before + after + 1 > args.max_consec_blows )
+        return false;
+    }
+
   // The changes that are added to complete a symmetry have not been tested 
   // against the mask or the prefix. 
   if ( args.mask != "*" )
-- 
2.43.0


From 4f0532bb5eafc06736c393e5b2bc8c50574fa0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:38 +0000
Subject: [PATCH 091/193] fix: methsearch: do not apply other options to
 changes copied from those in a mask

---
 apps/methsearch/mask.cpp    | 4 ++++
 apps/methsearch/prog_args.h | 1 +
 apps/methsearch/search.cpp  | 4 ++--
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 51aaaf5..c27a2eb 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -818,6 +818,10 @@ bool parse_mask( arguments &args )
   assert( above.size() == size_t(lead_len) );
   assert( below.size() == size_t(lead_len) );
 
+  args.is_masked.clear();
+  for ( size_t i=0; i<lead_len; ++i )
+    args.is_masked.push_back( above[i].size() || below[i].size() );
+
   // The changes allowed by a ? in a principle: one list for each stroke if -w
   // is given, and otherwise just one.
   vector<change> any_change[2];
diff --git a/apps/methsearch/prog_args.h b/apps/methsearch/prog_args.h
index 9fa61d2..420ce00 100644
--- a/apps/methsearch/prog_args.h
+++ b/apps/methsearch/prog_args.h
@@ -158,6 +158,7 @@ struct arguments
   vector<music>       row_matches;
 
   vector< vector<change> > allowed_changes;
+  vector<bool>             is_masked;  // Is the change given in the mask?
 
   string overwork_map_file, underwork_map_file;
 
diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index bef341a..201c924 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -451,8 +451,8 @@ bool searcher::is_acceptable_method()
 
   // The changes that are added to complete a symmetry have not been tested 
   // against the mask or the prefix. 
-  if ( args.mask != "*" )
-    for ( size_t i=0; i<m.size(); ++i ) {
+  for ( size_t i=0; i<m.size() && i<args.is_masked.size(); ++i )
+    if ( args.is_masked[i] ) {
       vector<change> const& allowed = args.allowed_changes.at(i);
       if ( find( allowed.begin(), allowed.end(), m[i] ) == allowed.end() )
         return false;
-- 
2.43.0


From d6a035d58c37f43abc076cede6d85672884aee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:51 +0000
Subject: [PATCH 092/193] fix: methsearch: do not expect the lead-end change to
 be right place on odd stages

---
 apps/methsearch/mask.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index c27a2eb..d76a607 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -474,9 +474,9 @@ bool read_and_expand_blocks( arguments& args,
 void select_changes_above( const arguments& args, vector<change>& changesa,
                            int i )
 {
+  const pair< int, int > posn( get_posn2(args, i) );
   int active_above;
   {
-    const pair< int, int > posn( get_posn2(args, i) );
     if ( posn.second == args.treble_back - args.treble_front )
       active_above = args.bells - args.treble_back;
     else
@@ -493,8 +493,9 @@ void select_changes_above( const arguments& args, vector<change>& changesa,
         j != e; ++j ) {
     change a(*j); 
 
-    // Handle -w
+    // Handle -w.  On odd stages, the lead-end change is necessarily wrong.
     if ( args.right_place && i % 2 == args.bells % 2
+         && !( args.bells % 2 && posn.second == -1 )
          && args.bells - a.count_places() != active_above )
       continue;
     
-- 
2.43.0


From 584a0997a8769338e4abbd67f4e24fd3caac4ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:01 +0000
Subject: [PATCH 093/193] fix: methsearch: -y has no effect without a hunt bell

---
 apps/methsearch/search.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 201c924..9a4aa2c 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -1037,7 +1037,8 @@ bool searcher::try_midlead_change( const change &ch )
     }
   
   // Are we more than half way through the current division? 
-  if ( args.sym_sects && !intersection && depth - div_start >= cur_div_len/2 )
+  if ( args.sym_sects && args.hunt_bells && !intersection 
+       && depth - div_start >= cur_div_len/2 )
     {
       int i = div_start + cur_div_len - 2 - (depth - div_start);
       assert( i < (int)m.size() && i >= 0 );
-- 
2.43.0


From 19328966e6173db431aae19da3591e652e3e10e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:19 +0000
Subject: [PATCH 094/193] fix: methsearch: apply rotational symmetry to short
 leads

---
 apps/methsearch/search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 9a4aa2c..d4a921c 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -1479,7 +1479,7 @@ void searcher::general_recurse()
     }
 
   // Only rotational symmetry
-  else if ( args.skewsym && depth == tqlead_sym_pt + 1 && lead_len > 4 )
+  else if ( args.skewsym && depth == tqlead_sym_pt + 1 )
     {
       assert( !args.doubsym && !args.sym );
 
-- 
2.43.0


From ae789715dd6e111c110ced7bb5e8258f9b0884f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:03 +0000
Subject: [PATCH 095/193] fix: methsearch: require principles to have a
 symmetric change at the rotational symmetry points

---
 apps/methsearch/search.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index d4a921c..a9a4a9d 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -1217,8 +1217,9 @@ void searcher::new_midlead_change()
 
       // XXX ALLIANCE -- locate rotational symmetry point
       // Additional requirements for the rotational symmetry point:
-      if ( args.hunt_bells && args.skewsym && lead_len % 4 == 0 
-           && depth % (lead_len/2) == lead_len / 4 - args.hunt_bells % 2 &&
+      if ( args.skewsym && !args.floating_sym && lead_len % 4 == 0 
+           && depth % (lead_len/2) == lead_len / 4 
+                - ( args.hunt_bells % 2 || !args.hunt_bells ? 1 : 0 ) &&
            ! try_quarterlead_change( ch ) )
         continue;
 
-- 
2.43.0


From 8f23f40263dac3e3d2571b0c8fd6fee8de1e8932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:32 +0000
Subject: [PATCH 096/193] fix: methsearch: do not find methods with repeated
 changes made by copying

---
 apps/methsearch/search.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index a9a4a9d..0e43a08 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -462,6 +462,16 @@ bool searcher::is_acceptable_method()
     if ( m[i] != args.prefix[i] )
       return false;
 
+  // Nor have they been tested for being the same as the previous change.
+  if ( args.true_trivial && ( args.skewsym || args.doubsym ) ) {
+    for ( size_t i=1; i<m.size(); ++i )
+      if ( m[i] == m[i-1] )
+        return false;
+
+    if ( !args.hunt_bells && m.size() > 1 && m.front() == m.back() )
+      return false;
+  }
+
   if ( ! is_acceptable_leadhead( m.lh() ) )
     return false;
 
-- 
2.43.0


From 7ca80d5f58e04de0d7bdee79e786dbd04ed6f1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:45 +0000
Subject: [PATCH 097/193] fix: methsearch: do not count the exempted change of
 --long-le-place

---
 apps/methsearch/search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 0e43a08..1dedb17 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -898,7 +898,7 @@ bool searcher::try_leadend_change( const change &ch )
           if (args.long_le_place && !sym_offset) count=1; 
 
           int end = m.length();
-          if (args.long_le_place && sym_offset) end = sym_offset;
+          if (args.long_le_place && sym_offset) end = sym_offset-1;
 
           for ( int offset = 0; 
                 offset < end && count <= args.max_consec_blows; 
-- 
2.43.0


From 44d14c846febc3cf9e4fcd4ca45a7fd744476ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:45 +0000
Subject: [PATCH 098/193] fix: methsearch: -Fr does not prevent a row from
 being the lead head

---
 apps/methsearch/search.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 1dedb17..8c2241e 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -397,7 +397,9 @@ public:
 
   bool prove_lh( row const& lh ) {
     row const r2 = args.pends.rcoset_label(lh);
-    if ( r2 != args.pends.rcoset_label(args.start_row) )
+    // The lead head is not part of the lead, so it's not an avoided row.
+    if ( r2 != args.pends.rcoset_label(args.start_row)
+         && args.avoid_rows.find(r2) == args.avoid_rows.end() )
       p.add_row(r2);
     return p.truth();
   }
-- 
2.43.0


From 8334f997aeee5990fcbf87ce36ff4c234e7dcfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:45 +0000
Subject: [PATCH 099/193] fix: methsearch: avoid the rows given with -Fr
 throughout the plain course with -Fc

---
 apps/methsearch/search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 8c2241e..47cd06b 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -551,7 +551,7 @@ bool searcher::is_acceptable_method()
   // into the following block by folding the actual lhs and les into the
   // part end group.
   if ( args.true_lead 
-         && ( args.pends.size() > 1 
+         && ( args.pends.size() > 1 || args.avoid_rows.size()
               || !( args.sym && args.hunt_bells && !args.treble_dodges ) ) )
     {
       prover2 p(args);
-- 
2.43.0


From 9f63b11cb51fe8e6ac54ab13452fff0e25385fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:45 +0000
Subject: [PATCH 100/193] fix: methsearch: apply -S and -T to the changes
 copied with an even number of hunts

---
 apps/methsearch/search.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 47cd06b..3069525 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -452,7 +452,12 @@ bool searcher::is_acceptable_method()
     }
 
   // The changes that are added to complete a symmetry have not been tested 
-  // against the mask or the prefix. 
+  // against the class, the mask or the prefix.
+  if ( args.hunt_bells && ( args.surprise || args.treble_bob ) )
+    for ( size_t i = div_len-1; i+1<lead_len; i += div_len )
+      if ( i != lead_len/2-1 && m[i].internal() != args.surprise )
+        return false;
+
   for ( size_t i=0; i<m.size() && i<args.is_masked.size(); ++i )
     if ( args.is_masked[i] ) {
       vector<change> const& allowed = args.allowed_changes.at(i);
-- 
2.43.0


From 9a31801336b00ce248a912b72ea608db43648da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:54 +0000
Subject: [PATCH 101/193] fix: methsearch: look for null changes in symmetric
 plain methods with -Fx

---
 apps/methsearch/search.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 3069525..163543e 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -557,6 +557,7 @@ bool searcher::is_acceptable_method()
   // part end group.
   if ( args.true_lead 
          && ( args.pends.size() > 1 || args.avoid_rows.size()
+              || !args.true_trivial
               || !( args.sym && args.hunt_bells && !args.treble_dodges ) ) )
     {
       prover2 p(args);
@@ -587,7 +588,8 @@ bool searcher::is_acceptable_method()
   // If we adopt the above further optimisation, we need to also test
   // -Fl/-Fc for symmetric methods.
   else if ( args.true_half_lead 
-            && ( args.pends.size() > 1 || args.hunt_bells == 0 )  )
+            && ( args.pends.size() > 1 || args.hunt_bells == 0 
+                 || !args.true_trivial ) )
     {
       prover2 p(args);
       if ( !p.prove(m.begin(), m.begin()+m.size()/2) )
-- 
2.43.0


From e018fc1996ada403246cf8bc2f5beb8b019b0ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:53 +0000
Subject: [PATCH 102/193] fix: methsearch: a pair of bells dodging throughout
 the lead is not a point

---
 apps/methsearch/methodutils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/methodutils.cpp b/apps/methsearch/methodutils.cpp
index 332fdbf..cd848b3 100644
--- a/apps/methsearch/methodutils.cpp
+++ b/apps/methsearch/methodutils.cpp
@@ -403,8 +403,10 @@ static vector<int> find_dodges( method const& m, bool inc_places )
                      m[j].findplace(i) && m[j].findplace(i+1) ) ) 
       ++j;
     // Is there dodging throughout the lead?
-    if (j==l)
+    if (j==l) {
       dodges.push_back(-1);
+      continue;
+    }
 
     for ( int k=j; k<j+l; ++k ) {
       int k0=k;
-- 
2.43.0


From ae2b727f5fd7540eb17117efa8e08119572bc1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:53 +0000
Subject: [PATCH 103/193] fix: methsearch: do not expect a method with a null
 change to be true

---
 apps/methsearch/search.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 163543e..2604c3a 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -566,11 +566,8 @@ bool searcher::is_acceptable_method()
         ;
 
       // This branch handles -Fc
-      if ( !p.truth() ) {
-        if ( !args.true_course && args.n_extents == 1 )  // i.e. if -Fl
-          assert( p.truth() );
+      if ( !p.truth() )
         return false;
-      }
 
       // There doesn't seem any ideal solution as to what to do with the 
       // lead head row.  Arguably we shouldn't prove it as it's not 
-- 
2.43.0


From 846b029f36948511f3c33f0a25c85e8bd9d36726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:53 +0000
Subject: [PATCH 104/193] fix: methsearch: count the places made by copied
 changes with -p

---
 apps/methsearch/search.cpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 2604c3a..d0e0949 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -434,21 +434,24 @@ bool searcher::is_acceptable_method()
            compare_changes ) )
     return false;
 
-  // When the palindromic symmetry point is after the lead end, the places that
-  // are made around the lead end are not known until the lead is complete.
-  if ( args.max_consec_blows && args.sym && sym_offset )
-    for ( int i=0; i<bells; ++i ) {
+  // Some of the places made by the changes that complete a symmetry have not
+  // been counted.
+  if ( args.max_consec_blows && ( args.skewsym || args.doubsym || args.sym ) )
+    {
+      const size_t len = m.size();
       // The change which --long-le-place exempts
-      size_t const end = args.long_le_place ? size_t(sym_offset-1) : m.size();
-      size_t after = 0, before = 0;
-      while ( after < end && m[after].findplace(i) ) 
-        ++after;
-      while ( after + before < m.size() 
-              && m[m.size()-1-before].findplace(i) ) 
-        ++before;
-
-      if ( before && after && before + after + 1 > args.max_consec_blows )
-        return false;
+      const size_t exempt 
+        = args.long_le_place ? (len + sym_offset - 1) % len : len;
+
+      for ( int i=0; i<bells; ++i ) {
+        size_t blows = 1;
+        for ( size_t j=0; j<2*len; ++j ) {
+          if ( j%len == exempt || !m[j%len].findplace(i) ) 
+            blows = 1;
+          else if ( ++blows > args.max_consec_blows )
+            return false;
+        }
+      }
     }
 
   // The changes that are added to complete a symmetry have not been tested 
-- 
2.43.0


From 433d5942e5a8a1d6f14a38203f3ae8d3b27f6098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:34 +0000
Subject: [PATCH 105/193] fix: methsearch: do not assume that a floating
 symmetry is about the lead end

---
 apps/methsearch/search.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index d0e0949..565d08c 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -847,8 +847,8 @@ bool searcher::is_limited_le( const change& ch )
 
 bool searcher::try_halflead_sym_change( const change &ch )
 {
-  if ( (args.skewsym || args.doubsym) && args.require_limited_le 
-       && !is_limited_le( ch.reverse() ) )
+  if ( (args.skewsym || args.doubsym) && !args.floating_sym 
+       && args.require_limited_le && !is_limited_le( ch.reverse() ) )
     return false;
 
   if ( (args.skewsym || args.doubsym) &&
@@ -857,7 +857,7 @@ bool searcher::try_halflead_sym_change( const change &ch )
 
   size_t stopoff = args.long_le_place 
     ? (lead_len+sym_offset-1) % lead_len : (size_t)-1;
-  if ( args.sym && args.max_consec_blows
+  if ( args.sym && !args.floating_sym && args.max_consec_blows
        && is_too_many_places( m, ch, args.max_consec_blows/2+1, stopoff ) )
     return false;
 
@@ -938,7 +938,8 @@ bool searcher::try_leadend_sym_change( const change &ch )
   if ( args.no_78_pns && ch.findplace(bells-2) )
     return false;
 
-  if ( args.sym && !args.long_le_place && args.max_consec_blows
+  if ( args.sym && !args.floating_sym && !args.long_le_place 
+       && args.max_consec_blows
        && is_too_many_places( m, ch, args.max_consec_blows/2+1 ) )
     return false;
 
-- 
2.43.0


From e5fda9f4dabcb869345c78af040053aa3a6cc099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:37 +0000
Subject: [PATCH 106/193] fix: methsearch: apply --changes to every change of a
 right-place principle

---
 apps/methsearch/mask.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index d76a607..558da55 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -542,7 +542,12 @@ void select_changes_prin( const arguments& args, vector<change>& changes,
 {
   if ( args.right_place && args.bells % 2 == 0 && i % 2 == 0 ) {
     // Handle -w
-    changes.push_back( change( args.bells, "-" ) );
+    const change cross( args.bells, "-" );
+
+    // Handle --changes
+    if ( args.changes.empty() || args.include_changes
+         == ( args.changes.find(cross) != args.changes.end() ) )
+      changes.push_back( cross );
   }
 
   else {
-- 
2.43.0


From e6fcabe4fd77a4c8fb1f1595f3fbee4513db1d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 107/193] fix: methsearch: look for the symmetry of a mask
 about the right places

---
 apps/methsearch/mask.cpp | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 558da55..d6da33e 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -703,20 +703,20 @@ bool is_mask_consistent( arguments &args,
                          const vector<vector<change> > &below )
 {
   assert( args.lead_len );
-  const int hl_len = args.lead_len / 2;
+  const int hl_len = args.lead_len / 2, lead_len = 2 * hl_len;
 
-  for ( int depth=0; depth < 2*hl_len; ++depth ) {
-    if ( args.skewsym ) {
-      const int depth2( ( depth > hl_len ? 3 : 1 ) * hl_len
-                        - args.hunt_bells % 2 * 2 - depth );
+  // The position of the palindromic symmetry point.
+  const int offset = args.hunt_bells && args.hunt_bells % 2 == 0 
+    ? 1 + args.treble_dodges : 0;
 
-      if ( depth2 < 0 || depth2 >= hl_len*2 || depth2 == depth )
-          continue;
+  for ( int depth=0; depth < lead_len; ++depth ) {
+    if ( args.skewsym ) {
+      const int other_index
+        = ( hl_len + 2 * (offset - 1) - depth + 2 * lead_len ) % lead_len;
 
       // FIXME Quarter-lead change
-
-      int other_index( ( depth > hl_len ? 3 : 1 ) * hl_len 
-                       - args.hunt_bells % 2 * 2 - depth );
+      if ( other_index == depth )
+        continue;
 
       const vector<change> &ch1a = above[depth];
       const vector<change> &ch1b = below[depth];
@@ -750,13 +750,9 @@ bool is_mask_consistent( arguments &args,
     }
 
     if ( args.sym ) {
-      size_t offset = (args.hunt_bells && args.hunt_bells % 2 == 0) ? 1 : 0;
-      if ( 2 * (hl_len - 1 + offset) - depth < 0 || 
-           2 * (hl_len - 1 + offset) - depth >= 2 * hl_len )
-        continue;
-
-      int other_index( 2 * (hl_len - 1 + offset) - depth );
-      assert( other_index >= 0 ); assert( other_index <= above.size() );
+      const int other_index
+        = ( 2 * (offset - 1) - depth + 2 * lead_len ) % lead_len;
+      assert( other_index >= 0 ); assert( other_index < above.size() );
 
       const vector<change> &ch1a = above[depth];
       const vector<change> &ch1b = below[depth];
-- 
2.43.0


From ed42e3e1390784b0326760aa79e93115be6b5460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 108/193] fix: methsearch: allow the treble to make the place
 which -f disallows

---
 apps/methsearch/search.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 565d08c..1e556f5 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -935,9 +935,6 @@ bool searcher::try_leadend_sym_change( const change &ch )
   if ( args.require_limited_le && !is_limited_le(ch) ) 
     return false;
 
-  if ( args.no_78_pns && ch.findplace(bells-2) )
-    return false;
-
   if ( args.sym && !args.floating_sym && !args.long_le_place 
        && args.max_consec_blows
        && is_too_many_places( m, ch, args.max_consec_blows/2+1 ) )
-- 
2.43.0


From 2af8f27074ae739c7468b8f3a2d5104885b08535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 109/193] fix: methsearch: prove methods whose symmetry is not
 about the lead end

---
 apps/methsearch/search.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 1e556f5..cf8aea2 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -561,7 +561,8 @@ bool searcher::is_acceptable_method()
   if ( args.true_lead 
          && ( args.pends.size() > 1 || args.avoid_rows.size()
               || !args.true_trivial
-              || !( args.sym && args.hunt_bells && !args.treble_dodges ) ) )
+              || !( args.sym && !args.floating_sym 
+                    && args.hunt_bells && !args.treble_dodges ) ) )
     {
       prover2 p(args);
       while ( p.prove(m.begin(), m.end()) &&
@@ -600,9 +601,11 @@ bool searcher::is_acceptable_method()
       // end (modulo the part-end group), or that the half-lead head does not
       // cause the initial half-lead to run false.   As above, it's a bit
       // heuristical, but it seems to work.
-      if ( args.sym && !p.prove_hl( m[m.size()/2-1] ) ) return false;
+      const bool floating = args.floating_sym;
+      if ( args.sym && !floating && !p.prove_hl( m[m.size()/2-1] ) ) 
+        return false;
 
-      if ( !args.sym && !args.doubsym ) {
+      if ( floating || !args.sym && !args.doubsym ) {
         prover2 p2(args, p.current_row());
         if ( !p2.prove(m.begin()+m.size()/2, m.end()) )
           return false;
-- 
2.43.0


From 1ecb57a1e220b41335f76649bb3202f2c7f1c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 110/193] fix: methsearch: prove the lead head from the start
 row with -Fh

---
 apps/methsearch/search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index cf8aea2..e3e3d51 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -612,7 +612,7 @@ bool searcher::is_acceptable_method()
         if ( !p2.prove_lh() ) return false;
       }  
       else {
-        if ( !p.prove_lh(m.lh()) ) return false;
+        if ( !p.prove_lh( args.start_row * m.lh() ) ) return false;
       }
     }
 
-- 
2.43.0


From 2f7f05f1a08d75cc90aa1eb0c682ada4b2f02700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 111/193] fix: methsearch: allow rows to be repeated in a
 division with -FN

---
 apps/methsearch/search.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index e3e3d51..8fc22e4 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -1102,7 +1102,8 @@ cerr << "SOUP: " << ch << " at depth " << m.length() << endl;
   // by the default -Fn.)
   // This test doesn't effect the -E handling noted above as if the base
   // method passes this, so will the variant with a 12 or 1N lh.
-  if ( args.true_half_lead && cur_div_len > 4 && !intersection
+  if ( args.true_half_lead && args.n_extents == 1 
+       && cur_div_len > 4 && !intersection
        && is_division_false( m, ch, div_start, cur_div_len ) )
     return false;
   
-- 
2.43.0


From dcd7a252ee7a3a2fa717f933e655077339ea1770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 112/193] fix: methsearch: allow the places of --long-le-place
 in methods with glide symmetry

---
 apps/methsearch/search.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 8fc22e4..8e8e9d0 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -1285,7 +1285,8 @@ void searcher::new_midlead_change()
 
 void searcher::double_existing()
 {
-  if ( args.max_consec_blows )
+  // (--long-le-place exempts a change: is_acceptable_method handles that.)
+  if ( args.max_consec_blows && !args.long_le_place )
     for ( int i=0; i<bells; ++i )
       if ( m.back().findplace(i) )
         {
@@ -1320,7 +1321,8 @@ void searcher::double_existing()
   change ch( m[ hl_len-1 ].reverse() );
   
   // Not sure if this is still necessary ...
-  if ( args.max_consec_blows )
+  // (--long-le-place exempts a change: is_acceptable_method handles that.)
+  if ( args.max_consec_blows && !args.long_le_place )
     for ( int i=0; ok && i<bells; ++i )
       if ( ch.findplace(i) )
         {
-- 
2.43.0


From 410dda5e837b232a8d0789aba7206c487f4f533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:04 +0000
Subject: [PATCH 113/193] fix: methsearch: find the treble's position at the
 lead end when it dodges more than once

---
 apps/methsearch/search.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 8e8e9d0..750bac0 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -736,6 +736,10 @@ inline int searcher::get_posn() const
 
   const size_t depth = m.length();
 
+  // The lead-end change
+  if ( depth == lead_len-1 )
+    return args.treble_front-2;
+
   // Reflect about the half-lead:
   size_t posn = depth >= lead_len/2 ? lead_len - depth - 2 : depth;
   
-- 
2.43.0


From e96c3aac48c0c665c8312c7b238e27248e9271bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:04 +0000
Subject: [PATCH 114/193] fix: methsearch: allow places below the treble with
 -f and a floating symmetry

---
 apps/methsearch/mask.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index d6da33e..6fe6496 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -528,7 +528,8 @@ void select_changes_below( const arguments& args, vector<change>& changesb,
       continue;
 
     // Handle -kf or -df
-    if ( (args.skewsym || args.doubsym || args.mirrorsym) 
+    if ( ( (args.skewsym || args.doubsym) && !args.floating_sym 
+           || args.mirrorsym ) 
          && args.no_78_pns 
          && active_below > 1 && b.findplace(1) )
       continue;
-- 
2.43.0


From 7a0ef33c3c60e5f3d7043160439412d41690922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:01 +0000
Subject: [PATCH 115/193] fix: methsearch: allow 2nds place at the half lead
 with -f and a floating symmetry

---
 apps/methsearch/search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 750bac0..32c14bc 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -858,7 +858,7 @@ bool searcher::try_halflead_sym_change( const change &ch )
        && args.require_limited_le && !is_limited_le( ch.reverse() ) )
     return false;
 
-  if ( (args.skewsym || args.doubsym) &&
+  if ( (args.skewsym || args.doubsym) && !args.floating_sym &&
        args.no_78_pns && ch.findplace(1) )
     return false;
 
-- 
2.43.0


From 12e93708d3a78a242b055172fd728face8b145d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:01 +0000
Subject: [PATCH 116/193] fix: methsearch: apply -w to copied changes in
 principles

---
 apps/methsearch/search.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 32c14bc..6854e1e 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -461,6 +461,12 @@ bool searcher::is_acceptable_method()
       if ( i != lead_len/2-1 && m[i].internal() != args.surprise )
         return false;
 
+  if ( !args.hunt_bells && args.right_place )
+    for ( size_t i=0; i<m.size(); i+=2 )
+      if ( m[i].count_places() 
+           && !( i < args.is_masked.size() && args.is_masked[i] ) )
+        return false;
+
   for ( size_t i=0; i<m.size() && i<args.is_masked.size(); ++i )
     if ( args.is_masked[i] ) {
       vector<change> const& allowed = args.allowed_changes.at(i);
-- 
2.43.0


From 131814b4b10c68abdbcdb452e880c25c8a7c2aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:51 +0000
Subject: [PATCH 117/193] fix: methsearch: find delight methods with a floating
 symmetry

---
 apps/methsearch/search.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 6854e1e..d4ca745 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -1009,18 +1009,23 @@ bool searcher::try_midlead_change( const change &ch )
       {
         const int f = args.treble_front, b = args.treble_back, p = posn;
 
+        // Nothing is copied when the symmetry points can be anywhere.
+        const bool copied = !args.floating_sym;
+        const bool sym = copied && args.sym, skewsym = copied && args.skewsym,
+          doubsym = copied && args.doubsym;
+
         if ( // If we're palindromic or glide symmetric (but not both) 
              // the last independent cross-section is when the treble is 
              // e.g. in 10-11 for maximus.
-             (args.sym ^ args.doubsym) && p == b - 3 ||
+             (sym ^ doubsym) && p == b - 3 ||
              // If we're maximally symmetric, it's when the treble's in 
              // 6-7 for fourteen or maximus, or 4-5 for royal or major.
-             args.sym && args.doubsym && p == (f + (b-f+1)/2 - 1)/2*2-1 ||
+             sym && doubsym && p == (f + (b-f+1)/2 - 1)/2*2-1 ||
              // If we're rotationally symmetric, it's when the treble's in 
              // 6-7 down for max or royal, 4-5 for major or minor
-             args.skewsym && p == (f + (b-f+1)/2)/2*2 - 1 && depth > hl_len ||
+             skewsym && p == (f + (b-f+1)/2)/2*2 - 1 && depth > hl_len ||
              // If we're asymmetric, the treble is in 2-3 on the way down.
-             !args.sym && !args.doubsym && !args.skewsym 
+             !sym && !doubsym && !skewsym 
                        && p == f && depth > hl_len ) 
         {
           // Count how many external (i.e. 1N) cross-sections there are:
@@ -1035,14 +1040,14 @@ bool searcher::try_midlead_change( const change &ch )
             // rotational symmetric, but we don't care because --exercise et 
             // al. are not enabled for non-palindromic methods.
             int value = 1;
-            if ( args.skewsym && i%hl_len != hl_len/2 - 1 ) value = 2;
+            if ( skewsym && i%hl_len != hl_len/2 - 1 ) value = 2;
      
             if (!m[i].internal()) external_cross_sections += value;
             cross_sections += value;
           }
           {
             int value = 1;
-            if ( args.skewsym && (b-f)%4 == 1 ) value = 2;
+            if ( skewsym && (b-f)%4 == 1 ) value = 2;
             if (!ch.internal()) external_cross_sections += value;
             cross_sections += value;
           }
-- 
2.43.0


From 73356059d7f3a83ecad13b1ecd7f03e57a87b90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:52 +0000
Subject: [PATCH 118/193] fix: methsearch: methods after the one given to
 --start-at were not found

---
 apps/methsearch/search.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index d4ca745..8ad4c1a 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -116,7 +116,6 @@ private:
   RINGING_ULLONG search_count;
   RINGING_ULLONG node_count;
 
-  vector<change> startmeth;
   method filter_method;
   string filter_payload;
   size_t div_start;  // The index (into m) of the row of the division
@@ -139,9 +138,6 @@ searcher::searcher( arguments &args )
     args.orig_lead_len = args.lead_len;
 
   reset();
-
-  copy( args.startmeth.rbegin(), args.startmeth.rend(), 
-        back_inserter(startmeth) );
 }
 
 void searcher::init() {
@@ -1222,11 +1218,11 @@ void searcher::new_midlead_change()
 
   // If we're starting at a particular point (with --start), find out
   // what that change is.
+  // This is only of interest while no later change has been taken.
   change first;
-  if ( startmeth.size() ) {
-    first = startmeth.back();
-    startmeth.pop_back();
-  }
+  if ( depth < args.startmeth.size() 
+       && equal( m.begin(), m.end(), args.startmeth.begin() ) )
+    first = args.startmeth[depth];
 
   for ( vector<change>::const_iterator 
           i( changes_to_try.begin() ), e( changes_to_try.end() ); 
-- 
2.43.0


From 31642034e5c736acf6a8bb3d8cb10172d0774a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:05 +0000
Subject: [PATCH 119/193] fix: methsearch: --invert-filter did not list methods
 of the wrong length

---
 apps/methsearch/search.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 8ad4c1a..5923c9f 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -210,16 +210,20 @@ void searcher::filter( library const& in )
       init();
     }
     
+    bool right_length = true;
 
     try {
       filter_method = i->meth();
-      if (args.lead_len && filter_method.size() != args.lead_len)
-        continue;
-      if ( !args.orig_lead_len ) {
+      // Methods of the wrong length do not match, but are wanted when 
+      // inverting the filter.
+      right_length = !args.lead_len || filter_method.size() == args.lead_len;
+      if ( right_length && !args.orig_lead_len ) {
         lead_len = args.lead_len = filter_method.length();
         if ( !parse_mask(args) ) 
-          continue;
+          right_length = false;
       }
+      if ( !right_length && !args.invert_filter )
+        continue;
       if ( i->has_facet<litelib::payload>() )
         filter_payload = i->get_facet<litelib::payload>();
       else
@@ -239,7 +243,7 @@ void searcher::filter( library const& in )
     do_status( filter_method );
 
     RINGING_ULLONG old_search_count = search_count;
-    general_recurse();
+    if ( right_length ) general_recurse();
     assert( m.length() == 0 );
     m = method();  // Reset the number of bells 
 
-- 
2.43.0


From cc5d9860f6a0428ab43dfb58d5cbc0df7209ded5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:06 +0000
Subject: [PATCH 120/193] fix: methsearch: with --invert-filter, --limit listed
 every method after the last

---
 apps/methsearch/search.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 5923c9f..3137879 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -194,6 +194,9 @@ inline void searcher::do_status( method const& m ) {
 void searcher::filter( library const& in )
 {
   for ( library::const_iterator i=in.begin(), e=in.end(); i!=e; ++i ) { 
+    if ( search_limit && search_limit != -1 && search_count == search_limit )
+      break;
+
     class reset_bells {
     public:
       reset_bells(arguments& args) : args(args), val(args.bells) {}
-- 
2.43.0


From ee5bec51ccbe5d8217abcd9a869a53f7794c03c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:06 +0000
Subject: [PATCH 121/193] fix: methsearch: --row-match ignored row 0

---
 apps/methsearch/search.cpp | 43 ++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 3137879..912b7ed 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -93,6 +93,7 @@ private:
   bool try_quarterlead_change( const change &ch );
   bool try_offset_start_change( const change &ch);
   bool try_with_limited_le( const change& ch );
+  bool try_row_match();
   bool try_floating_symmetry();
 
   bool is_acceptable_method();
@@ -654,6 +655,27 @@ bool searcher::is_acceptable_method()
   return true;
 }
 
+// Does the current row match what --row-match requires?
+bool searcher::try_row_match()
+{
+  if ( m.size() < args.row_matches.size() 
+       && args.row_matches[m.size()].bells() ) {
+    music& mus = const_cast<music&>( args.row_matches[m.size()] );
+    row const r( this->r * row(bells) ); // The start row may be shorter
+
+    if (args.pends.size() > 1) {
+      bool matched = false;
+      for (group::const_iterator i(args.pends.begin()), e(args.pends.end());
+             i != e; ++i)
+        if (mus.process_row(*i * r))
+          matched = true;
+      return matched;
+    }
+    else return mus.process_row(r);
+  }
+  return true;
+}
+
 inline bool searcher::push_change( const change& ch )
 {
   m.push_back( ch );
@@ -670,22 +692,8 @@ inline bool searcher::push_change( const change& ch )
         return false;
     }
 
-    if ( m.size() < args.row_matches.size() 
-         && args.row_matches[m.size()].bells() ) {
-      music& mus = const_cast<music&>( args.row_matches[m.size()] );
-
-      if (args.pends.size() > 1) {
-        bool matched = false;
-        for (group::const_iterator i(args.pends.begin()), e(args.pends.end());
-               i != e; ++i)
-          if (mus.process_row(*i * r))
-            matched = true;
-        if (!matched)
-          return false;
-      }
-      else if (!mus.process_row(r))
-        return false;
-    }
+    if ( !try_row_match() )
+      return false;
   }
   if (m.length() == div_start + cur_div_len) {
     div_start += cur_div_len;
@@ -1425,6 +1433,9 @@ void searcher::general_recurse()
   // Status message (when in search mode)
   if ( !args.filter_mode ) do_status(m);
 
+  if ( depth == 0 && !try_row_match() )
+    return;
+
   // XXX ALLIANCE Is the lead_len % 4 test valid? 
   const bool has_qlead_change = lead_len % 4 == 0;
 
-- 
2.43.0


From c7f0e32313492faa0f7a6926d6ca89973e7a96c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:29 +0000
Subject: [PATCH 122/193] fix: methsearch: % by zero in an expression crashed

---
 apps/methsearch/expression.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/expression.cpp b/apps/methsearch/expression.cpp
index c625686..611e4ba 100644
--- a/apps/methsearch/expression.cpp
+++ b/apps/methsearch/expression.cpp
@@ -522,6 +522,14 @@ struct safe_divides : binary_function<T,T,T> {
   }
 };
 
+template <class T> 
+struct safe_modulus : binary_function<T,T,T> {
+  T operator() (const T& x, const T& y) const {
+    if (y == T()) throw division_by_zero();
+    return x%y;
+  }
+};
+
 RINGING_END_ANON_NAMESPACE
 
 shared_pointer<expression::node> 
@@ -559,7 +567,7 @@ expression::parser::split_expr( vector<token>::const_iterator first,
       CASE( minus,      RINGING_PREFIX_STD minus         );
       CASE( times,      RINGING_PREFIX_STD multiplies    );
       CASE( divide,                        safe_divides  );
-      CASE( modulo,     RINGING_PREFIX_STD modulus       );
+      CASE( modulo,                        safe_modulus  );
       CASE( iless,      RINGING_PREFIX_STD less          );
       CASE( igreater,   RINGING_PREFIX_STD greater       );
       CASE( ilesseq,    RINGING_PREFIX_STD less_equal    );
-- 
2.43.0


From dee524723d6e7007d97964c21ceecce8262b4965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:29 +0000
Subject: [PATCH 123/193] fix: methsearch: brackets which do not match in
 formats and expressions crashed

---
 apps/methsearch/format.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index 7f57fda..51e3701 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -576,13 +576,13 @@ format_string::format_string( const string &infmt,
       *outfmts.top() << *iter;
     }
     else if ( *iter == ')' && in_expr ) {
-      if ( parens.top() != '(' )
+      if ( parens.empty() || parens.top() != '(' )
         throw argument_error( "Unmatched parenthesis in $[ ] expression" );
       parens.pop();
       *outfmts.top() << *iter;
     }
     else if ( *iter == ']' && in_expr ) {
-      if ( parens.top() != '[' )
+      if ( parens.empty() || parens.top() != '[' )
         throw argument_error( "Unmatched brackets in $[ ] expression" );
 
       string expr( *outfmts.top() );
@@ -613,7 +613,12 @@ format_string::format_string( const string &infmt,
       *outfmts.top() << *iter;
   }
 
-  assert( type == require_type ? in_expr : !in_expr );
+  if ( !parens.empty() )
+    throw argument_error( make_string() << "Unmatched "
+                          << ( parens.top() == '[' ? "brackets in $[ ]" :
+                               parens.top() == '`' ? "parenthesis in $( )" :
+                                                     "parenthesis in $[ ]" )
+                          << " expression" );
 
   if ( line_break )
     *outfmts.top() << '\n';
-- 
2.43.0


From 9d58b261245cca50770c443c07af303b1b25129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:29 +0000
Subject: [PATCH 124/193] fix: methsearch: \x at the end of a format read
 beyond it

---
 apps/methsearch/format.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index 51e3701..4ba3b3d 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -534,6 +534,8 @@ format_string::format_string( const string &infmt,
         // Escape '$' from the next stage
         case '$': *outfmts.top() << "$$";  break;
         case 'x': {
+          if ( end - iter < 3 )
+            throw argument_error( "Invalid \\xNN character escape sequence" );
           unsigned char value = 0x00;
           value += parse_xdigit(*++iter) * 0x10;
           value += parse_xdigit(*++iter);
-- 
2.43.0


From a3700e0c5cd3aaa9cdd8d8e03e1be691b1dbb9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 125/193] fix: methsearch: \x24 in a format was not a literal $

---
 apps/methsearch/format.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index 4ba3b3d..dcb6435 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -539,6 +539,8 @@ format_string::format_string( const string &infmt,
           unsigned char value = 0x00;
           value += parse_xdigit(*++iter) * 0x10;
           value += parse_xdigit(*++iter);
+          // Escape '$' from the next stage here too
+          if ( value == '$' ) *outfmts.top() << '$';
           *outfmts.top() << char(value);
         } break;
         // For everything else, \x -> literal x
-- 
2.43.0


From 9a837745aefc5669e96b1c5057ea9b8e568dda0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 126/193] fix: methsearch: $m,np and $m,nq could not be used in
 expressions

---
 apps/methsearch/expression.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/expression.cpp b/apps/methsearch/expression.cpp
index 611e4ba..7606211 100644
--- a/apps/methsearch/expression.cpp
+++ b/apps/methsearch/expression.cpp
@@ -334,8 +334,8 @@ public:
     if ( iter != begin )
       num_opt = atoi( string( begin, iter ).c_str() );
 
-    if ( *iter == ',' ) {
-      string::const_iterator iter2(iter);
+    if ( iter != end && *iter == ',' ) {
+      string::const_iterator iter2(++iter);
       while ( iter != end && isdigit(*iter) ) ++iter;
       if ( iter != iter2 )
         num2_opt = atoi( string( iter2, iter ).c_str() );
@@ -869,6 +869,10 @@ private:
       string::const_iterator j = i;
       if ( *j != '$' ) return failed; ++j;
       while ( j < e && isdigit(*j) ) ++j;
+      if ( j < e && *j == ',' ) {
+        ++j;
+        while ( j < e && isdigit(*j) ) ++j;
+      }
       if ( j == e ) return more; // Or fail?
       // $N* is magic:
       if ( !isalpha(*j) && *j != '*' && *j != '#' && *j != '?' ) 
-- 
2.43.0


From 60c704d4f1ed64a7f3fdb8e7aa02009abbb6d12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 127/193] fix: methsearch: $c in an expression crashed

---
 apps/methsearch/format.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index dcb6435..bae28e7 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -417,7 +417,8 @@ format_string::format_string( const string &infmt,
       // Errors for formats that can only be used with -H or -R
       switch ( *iter ) {
         case 'c': 
-          if ( type != stat_type )
+          // Expressions are evaluated before the count is known
+          if ( type != stat_type || !parens.empty() )
             throw argument_error( make_string() << "The `$" << *iter << "'"
                                   " can only be used in stats formats" );
           break;
-- 
2.43.0


From 1ddc4c484f7a64d695b753afa48fdd0b5c568473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 128/193] fix: methsearch: a ?: as the second argument of
 another needed parentheses

---
 apps/methsearch/expression.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apps/methsearch/expression.cpp b/apps/methsearch/expression.cpp
index 7606211..3d69552 100644
--- a/apps/methsearch/expression.cpp
+++ b/apps/methsearch/expression.cpp
@@ -735,12 +735,17 @@ expression::parser::make_node( vector<token>::const_iterator first,
     // We have a ?, now look for a :
     if ( i != last )
       {
+	int nested = 0; // ?: operators within the second argument
 	for (;;)
 	  {
 	    if ( i->type() == open_paren )
 	      ++depth;
 	    else if ( i->type() == close_paren )
 	      --depth;
+	    else if ( i->type() == question && depth == 0 )
+	      ++nested;
+	    else if ( i->type() == colon && depth == 0 && nested )
+	      --nested;
 	    else if ( i->type() == colon && depth == 0 )
 	      {
 		if ( i == qmark+1 )
-- 
2.43.0


From b81b65f36ee639e62f89d9b1c8b3c5089104bca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 129/193] fix: methsearch: rotational symmetry was found in
 methods of odd length which lack it

---
 apps/methsearch/methodutils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/methodutils.cpp b/apps/methsearch/methodutils.cpp
index cd848b3..04983fa 100644
--- a/apps/methsearch/methodutils.cpp
+++ b/apps/methsearch/methodutils.cpp
@@ -168,7 +168,9 @@ bool has_rotational_symmetry( const method &m )
     // Try m[i] / m[(i+1)%n] as the rotational symmetry point
     bool ok = true;
 
-    for ( int j=0; j<n/2 && ok; ++j )
+    // With an odd number of changes, the opposite change is a symmetry
+    // point too, and must be its own reverse.
+    for ( int j=0; j<(n+1)/2 && ok; ++j )
       if ( m[ (i+j+1)%n ] != m[ (n+i-j)%n ].reverse() )
         ok = false;
 
-- 
2.43.0


From 6cd44673350f74cc533f95605b0934eb62203bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:21 +0000
Subject: [PATCH 130/193] fix: methsearch: variables which a method does not
 have crashed

---
 apps/methsearch/expression.cpp  |  1 +
 apps/methsearch/format.cpp      | 22 ++++++++++++++++++----
 apps/methsearch/methodutils.cpp |  3 ++-
 apps/methsearch/output.cpp      | 15 +++++++++------
 apps/methsearch/output.h        |  7 +++++++
 apps/methsearch/prog_args.cpp   |  2 +-
 6 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/apps/methsearch/expression.cpp b/apps/methsearch/expression.cpp
index 3d69552..7ca9fe8 100644
--- a/apps/methsearch/expression.cpp
+++ b/apps/methsearch/expression.cpp
@@ -933,6 +933,7 @@ expression::expression( const string& str )
 #define RINGING_CATCH_EXPRESSION_ERROR( retval )           \
   catch ( division_by_zero const& ) { return (retval); }   \
   catch ( bad_lexical_cast const& ) { return (retval); }   \
+  catch ( property_error   const& ) { return (retval); }   \
   catch ( bell::invalid    const& ) { return (retval); }   \
   catch ( row::invalid     const& ) { return (retval); }   \
   catch ( row_wildcard::invalid_pattern const& ) { return (retval); }
diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index bae28e7..c4c2f32 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -161,6 +161,17 @@ int  formats_max_lead_offset() { return max_lead_offset; }
 
 // -------------------------------------------------------------
 
+// The value of a variable, or <ERROR> if the method doesn't have one
+static string get_property( const method_properties &props,
+                            const pair<int,int> &num_opts, const string &name )
+{
+  try {
+    return props.get_property( num_opts, name );
+  } catch ( const property_error& ) {
+    return expr_error_string;
+  }
+}
+
 class histogram_entry
 {
 public:
@@ -213,8 +224,8 @@ bool histogram_entry::cmp::operator()( const histogram_entry &x,
         yval = expression_cache::evaluate(i->first.first, y.props);
       }
       else {
-        xval = x.props.get_property( i->first, i->second );
-        yval = y.props.get_property( i->first, i->second );
+        xval = get_property( x.props, i->first, i->second );
+        yval = get_property( y.props, i->first, i->second );
       }
 
       if ( xval < yval ) 
@@ -277,8 +288,8 @@ void histogram_entry::print( ostream &os2, RINGING_ULLONG count ) const
                   break;
 
                 default:
-                  os << props.get_property( make_pair(num_opt, num2_opt), 
-                                            string(1, *iter) );
+                  os << get_property( props, make_pair(num_opt, num2_opt),
+                                      string(1, *iter) );
                 }
             }
           else
@@ -497,6 +508,9 @@ format_string::format_string( const string &infmt,
         case 'D': have_old_lhcodes = true; break;
         case 'h': case 'r':
           max_lead_offset = max( max_lead_offset, num_opt );
+          break;
+        case 'p': case 'q':
+          max_lead_offset = max( max_lead_offset, max( num_opt, num2_opt ) );
       }
 
       // $[ options are converted into $N* options by the ']' 
diff --git a/apps/methsearch/methodutils.cpp b/apps/methsearch/methodutils.cpp
index 04983fa..7c099cb 100644
--- a/apps/methsearch/methodutils.cpp
+++ b/apps/methsearch/methodutils.cpp
@@ -24,6 +24,7 @@
 #endif
 
 #include "methodutils.h"
+#include "output.h"
 #include <string>
 #include <stdexcept>
 #include <iostream>
@@ -248,7 +249,7 @@ string tenors_together_coursing_order( const method& m )
 
 
   if ( b == m.bells() - 1 ) // 7 and 8 are in different orbits
-    throw runtime_error( "Unable to get a tenors together coursing order" );
+    throw property_error( "Unable to get a tenors together coursing order" );
   
   assert( b == m.bells() - 2 );
 
diff --git a/apps/methsearch/output.cpp b/apps/methsearch/output.cpp
index f118573..ab3c160 100644
--- a/apps/methsearch/output.cpp
+++ b/apps/methsearch/output.cpp
@@ -139,13 +139,13 @@ static string format_pn( const method& m, pair<int,int> const& nums,
                          int fmt_opts ) {
   if (nums.first) {
     if ( nums.first > m.size() || nums.first <= 0 ) 
-      throw runtime_error( "Place notation offset out of range" );
+      throw property_error( "Place notation offset out of range" );
     method::const_iterator i( m.begin() + nums.first - 1 );
 
     vector<change> ch;
     if (nums.second) {
       if ( nums.second > m.size() || nums.second < nums.first ) 
-        throw runtime_error( "Place notation offset out of range" );
+        throw property_error( "Place notation offset out of range" );
       method::const_iterator e( m.begin() + nums.second );
 
       ch.assign(i, e);
@@ -202,12 +202,11 @@ string method_properties::impl2::get_property( pair<int,int> const& num_opts,
 	  // TODO:  Should we cache all rows at same time?
 	  row r( m.bells() );
 	  int n( num_opts.first );
-	  for ( method::const_iterator 
-		  i( m.begin() ), e( m.begin() + num_opts.first );
+	  for ( method::const_iterator i( m.begin() ), e( m.end() );
 		n && i != e; ++i, --n ) 
 	    r *= *i;
 	  if ( n )
-	    throw runtime_error( "Format specifies row after end of method" );
+	    throw property_error( "Format specifies row after end of method" );
 	  os << r;
 	} break;
 
@@ -216,7 +215,8 @@ string method_properties::impl2::get_property( pair<int,int> const& num_opts,
             os << m.at( num_opts.first-1 ); 
           } catch ( out_of_range const& ) {
             // This should only happen if we're filtering with -U0 and no -n.
-            os << expr_error_string;
+            throw property_error( "Format specifies change after end of "
+                                  "method" );
           }
 	  break;
 
@@ -277,6 +277,9 @@ string method_properties::impl2::get_property( pair<int,int> const& num_opts,
 	  break;
 
 	case 'P': {
+	  if ( num_opts.first < 1 || num_opts.first > m.bells() )
+	    throw property_error( "Format specifies path of a bell which "
+	                          "the method does not have" );
 	  bell b(num_opts.first-1); os << b;
 	  for ( method::const_iterator i( m.begin() ), e( m.end() ); 
 		i != e; ++i ) os << (b *= *i);
diff --git a/apps/methsearch/output.h b/apps/methsearch/output.h
index ebf06e0..0d48534 100644
--- a/apps/methsearch/output.h
+++ b/apps/methsearch/output.h
@@ -27,12 +27,19 @@
 #pragma interface
 #endif
 
+#include <stdexcept>
 #include <string>
 #include <ringing/library.h>
 
 RINGING_USING_NAMESPACE
 RINGING_USING_STD
 
+// A property which a particular method does not have
+class property_error : public runtime_error {
+public:
+  explicit property_error( const string& what ) : runtime_error(what) {}
+};
+
 class method_properties : public library_entry
 {
 public:
diff --git a/apps/methsearch/prog_args.cpp b/apps/methsearch/prog_args.cpp
index fa9e263..41480b9 100644
--- a/apps/methsearch/prog_args.cpp
+++ b/apps/methsearch/prog_args.cpp
@@ -1041,7 +1041,7 @@ bool arguments::validate_bells( arg_parser* ap )
   }
 
   if ( lead_len && formats_max_lead_offset() > lead_len ) {
-    if (ap) ap->error( "Format contains a $r or $h offset beyond the end of "
+    if (ap) ap->error( "Format contains a $r, $h, $p or $q offset beyond the end of "
                        "the lead" );
     return false;
   }
-- 
2.43.0


From 3e128bc07c8d5a9ed52e7e6b1756aed47aa415b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:43 +0000
Subject: [PATCH 131/193] fix: methsearch: $# counted the times it was printed
 and not the methods

---
 apps/methsearch/format.cpp | 1 +
 apps/methsearch/output.cpp | 9 +++++----
 apps/methsearch/output.h   | 3 +++
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index c4c2f32..615d94f 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -103,6 +103,7 @@ public:
 private:
   virtual void append( library_entry const& entry ) {
     method_properties props( entry );
+    ++method_properties::number;
     fs.print_method( props, (os ? *os : cout) );
   }
 
diff --git a/apps/methsearch/output.cpp b/apps/methsearch/output.cpp
index ab3c160..3e29066 100644
--- a/apps/methsearch/output.cpp
+++ b/apps/methsearch/output.cpp
@@ -63,6 +63,8 @@ RINGING_USING_STD
 
 int method_properties::pn_fmt_flags = method::M_DASH | method::M_FULL_SYMMETRY;
 
+RINGING_ULLONG method_properties::number = 0;
+
 char const* expr_error_string = "<ERROR>";
 
 static bool formats_in_unicode = false;
@@ -293,10 +295,9 @@ string method_properties::impl2::get_property( pair<int,int> const& num_opts,
           os << setw(num_opts.first) << staticity(m);
           break;
 
-	case '#': {
-	  static RINGING_ULLONG n=0;
-	  os << setw(num_opts.first) << ++n;
-	} break;
+	case '#':
+	  os << setw(num_opts.first) << method_properties::number;
+	  break;
  
         case 'i': {
           library_entry const& e = method_libraries::instance().find(m);
diff --git a/apps/methsearch/output.h b/apps/methsearch/output.h
index 0d48534..9f5923c 100644
--- a/apps/methsearch/output.h
+++ b/apps/methsearch/output.h
@@ -53,6 +53,9 @@ public:
 
   static int pn_fmt_flags;
 
+  // The number of methods that have been output
+  static RINGING_ULLONG number;
+
 private:
   class impl2;
 };
-- 
2.43.0


From 9b59cf91371e4c7904a1adb02416334a6f45edef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:43 +0000
Subject: [PATCH 132/193] fix: methsearch: $M was wrong or looped for ever when
 filtering without -b

---
 apps/methsearch/music.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/apps/methsearch/music.cpp b/apps/methsearch/music.cpp
index b5d1780..bb40e40 100644
--- a/apps/methsearch/music.cpp
+++ b/apps/methsearch/music.cpp
@@ -64,8 +64,14 @@ public:
   // This is public to get it to compile in MSVC.
  ~analyser() {}
     
+  // When filtering, methods may have different numbers of bells
   static analyser &instance( int bells ) 
-  { static analyser tmp( bells ); return tmp; }
+  { 
+    static map< int, shared_pointer<analyser> > analysers;
+    shared_pointer<analyser> &a = analysers[bells];
+    if ( !a ) a.reset( new analyser( bells ) );
+    return *a;
+  }
 
   friend class patterns;
     
@@ -244,6 +250,7 @@ int musical_analysis::analyse( const method &m )
 
 void musical_analysis::force_init( int bells )
 {
-  // Going into this function initialises the static there.
-  analyser::instance( bells );
+  // When filtering, the number of bells need not be known yet.
+  if ( bells )
+    analyser::instance( bells );
 }
-- 
2.43.0


From 4668a3f7397f2be1be0f406f541cc595a4dc642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:43 +0000
Subject: [PATCH 133/193] fix: methsearch: -Mlead and the like scored
 handstrokes as backstrokes

---
 apps/methsearch/music.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/music.cpp b/apps/methsearch/music.cpp
index bb40e40..2e5ab95 100644
--- a/apps/methsearch/music.cpp
+++ b/apps/methsearch/music.cpp
@@ -204,6 +204,10 @@ int musical_analysis::analyse( const method &m )
       vector< row > rows;
       row r = mi->first.first; // Set to the course head
 
+      // The first row after the lead head is at handstroke
+      size_t const half = m.size() / 2;
+      bool back = false;
+
       switch ( mi->first.second ) {
         case analyser::course:
           do 
@@ -212,21 +216,25 @@ int musical_analysis::analyse( const method &m )
           break;
 
         case analyser::lead:
+          back = true;
           transform( m.begin(), m.end(), 
                      back_inserter(rows), post_permute(r) );
           break;
 
         case analyser::half_lead:
+          back = true;
           transform( m.begin(), m.begin() + m.size()/2, 
                      back_inserter(rows), post_permute(r) );
           break;
 
         case analyser::half_lead_2:
+          back = half % 2 == 0;
           transform( m.begin() + m.size()/2, m.end(),
                      back_inserter(rows), post_permute(r) );
           break;
 
         case analyser::half_lead_r:
+          back = half % 2 == 1;
 	  transform( m.rbegin() + m.size()/2 + 1, m.rend(),
                      back_inserter(rows), post_permute(r) );
           rows.push_back(r);
@@ -241,7 +249,7 @@ int musical_analysis::analyse( const method &m )
           assert(false);
       }
 
-      mi->second.process_rows( rows.begin(), rows.end() );  
+      mi->second.process_rows( rows.begin(), rows.end(), back );  
       score += mi->second.get_score();
     }
 
-- 
2.43.0


From 9b8b5c9ee8cb7d44f3c84520c4cdb54568e00dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:01 +0000
Subject: [PATCH 134/193] fix: methsearch: suppress and abort in a -H format
 crashed

The values in the histogram are now evaluated once for each method, and not
whenever two are compared.
---
 apps/methsearch/format.cpp | 95 +++++++++++++++++++++++++-------------
 1 file changed, 62 insertions(+), 33 deletions(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index 615d94f..40ebc68 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -189,6 +189,9 @@ public:
   histogram_entry( const format_string &f, 
                    const method_properties &m );
 
+  // Evaluate what is compared and printed
+  void evaluate();
+
   void print( ostream &os, RINGING_ULLONG count ) const;
 
   RINGING_FAKE_DEFAULT_CONSTRUCTOR( histogram_entry )
@@ -196,9 +199,16 @@ public:
 private:
   friend struct cmp;
 
+  string get_value( const pair<int,int> &num_opts, const string &name ) const;
+
   const format_string &f;
 
   method_properties props;
+
+  // The values of f.vars, if they've been evaluated.  These aren't evaluated
+  // again as they may contain command invocations or keywords.
+  bool evaluated;
+  vector<string> values;
 };
 
 bool histogram_entry::cmp::operator()( const histogram_entry &x, 
@@ -206,8 +216,29 @@ bool histogram_entry::cmp::operator()( const histogram_entry &x,
 {
   assert( &x.f == &y.f );
 
+  assert( x.evaluated && y.evaluated );
+  return x.values < y.values;
+}
+
+histogram_entry::histogram_entry( const format_string &f, 
+                                  const method_properties &props )
+  : f( f ), props( props ), evaluated( false )
+{
+}
+
+string histogram_entry::get_value( const pair<int,int> &num_opts, 
+                                   const string &name ) const
+{
+  if ( name == "*" )
+    return expression_cache::evaluate( num_opts.first, props );
+  else
+    return get_property( props, num_opts, name );
+}
+
+void histogram_entry::evaluate()
+{
   for ( vector< pair< pair<int,int>, string> >::const_iterator 
-          i( x.f.vars.begin() ), e( x.f.vars.end() );  i != e;  ++i )
+          i( f.vars.begin() ), e( f.vars.end() );  i != e;  ++i )
     {
       // These are not taken into account when comparing strings
       // for stats.  For '%', '$' and ')' this is because they are constant,
@@ -216,33 +247,10 @@ bool histogram_entry::cmp::operator()( const histogram_entry &x,
            || i->second == "c" )
         continue;  
 
-      string xval, yval;
-
-      if ( i->second == "*" ) {
-        // TODO: We should cache these in case they contain lengthy 
-        // command invocations and/or non-deterministic output
-        xval = expression_cache::evaluate(i->first.first, x.props);
-        yval = expression_cache::evaluate(i->first.first, y.props);
-      }
-      else {
-        xval = get_property( x.props, i->first, i->second );
-        yval = get_property( y.props, i->first, i->second );
-      }
-
-      if ( xval < yval ) 
-        return true;
-      else if ( xval > yval )
-        return false;
+      values.push_back( get_value( i->first, i->second ) );
     }
 
-  // They're equal
-  return false;
-}
-
-histogram_entry::histogram_entry( const format_string &f, 
-                                  const method_properties &props )
-  : f( f ), props( props )
-{
+  evaluated = true;
 }
 
 
@@ -250,6 +258,7 @@ histogram_entry::histogram_entry( const format_string &f,
 void histogram_entry::print( ostream &os2, RINGING_ULLONG count ) const
 {
   make_string os;
+  vector<string>::const_iterator value( values.begin() );
 
   try 
     {
@@ -284,13 +293,12 @@ void histogram_entry::print( ostream &os2, RINGING_ULLONG count ) const
                   os << setw(num_opt) << count; 
                   break;
 
-                case '*': 
-                  os << expression_cache::evaluate(num_opt, props); 
-                  break;
-
                 default:
-                  os << get_property( props, make_pair(num_opt, num2_opt),
-                                      string(1, *iter) );
+                  if ( evaluated )
+                    os << *value++;
+                  else
+                    os << get_value( make_pair(num_opt, num2_opt),
+                                     string(1, *iter) );
                 }
             }
           else
@@ -321,7 +329,28 @@ void histogram_entry::print( ostream &os2, RINGING_ULLONG count ) const
 
 void format_string::add_method_to_stats( const method_properties &props ) const
 {
-  statistics::add_entry( histogram_entry( *this, props ) );
+  histogram_entry entry( *this, props );
+
+  try 
+    {
+      entry.evaluate();
+    }
+  catch ( const script_exception& sc )
+    {
+      switch ( sc.type() )
+        {
+        case script_exception::suppress_output:
+          return;
+
+        case script_exception::abort_search:
+          throw exit_exception();
+
+        default:
+          throw;
+        }
+    }
+
+  statistics::add_entry( entry );
 }
 
 RINGING_START_ANON_NAMESPACE
-- 
2.43.0


From eeef9be1d8f529aa981b64501b0a04f7ce9a098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:26 +0000
Subject: [PATCH 135/193] fix: touchsearch: a plan with out-of-course lead ends
 gave false touches

---
 apps/touchsearch/join_plan_search.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apps/touchsearch/join_plan_search.cpp b/apps/touchsearch/join_plan_search.cpp
index 7d97638..740e453 100644
--- a/apps/touchsearch/join_plan_search.cpp
+++ b/apps/touchsearch/join_plan_search.cpp
@@ -105,7 +105,11 @@ private:
         DEBUG( "Methods have different parity lead end changes" );
         return false;
       }
-        
+      // The rows at the lead ends, before the calls, are used too.
+      else if ( psign == -1 || i->first.sign() == -1 ) {
+        DEBUG( "Lead end or planned lead head is out-of-course" );
+        return false;
+      }
 
     for ( size_t i=0; i < s->calls.size(); ++i )
       if ( s->calls[i].sign() != psign ) {
-- 
2.43.0


From 4cf40091a18a5a78f762ae4a3bb2525be1bb72cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:26 +0000
Subject: [PATCH 136/193] fix: touchsearch: a plan in which the treble moves
 gave false touches or crashed

---
 apps/touchsearch/join_plan_search.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/apps/touchsearch/join_plan_search.cpp b/apps/touchsearch/join_plan_search.cpp
index 740e453..27120e0 100644
--- a/apps/touchsearch/join_plan_search.cpp
+++ b/apps/touchsearch/join_plan_search.cpp
@@ -121,14 +121,34 @@ private:
     return true;
   }
 
+  static bool is_fixed_treble( const join_plan_search *s )
+  {
+    for ( map<row,method>::const_iterator i=s->plan.begin(), e=s->plan.end();
+            i != e; ++i )
+    {
+      method m( i->second );  m.pop_back();
+      row le( s->bells );  le *= m.lh();
+      if ( i->first[0] != 0 || le[0] != 0 )
+        return false;
+    }
+
+    for ( size_t i=0; i < s->calls.size(); ++i )
+      if ( !s->calls[i].findplace(0) )
+        return false;
+
+    return true;
+  }
+
   static multtab make_table( const join_plan_search *s )
   {
+    int const hunts = is_fixed_treble(s) ? 1 : 0;
+
     if ( is_in_course(s) ) {
-      return multtab( incourse_extent_iterator( s->bells - 1, 1),
+      return multtab( incourse_extent_iterator( s->bells - hunts, hunts ),
                       incourse_extent_iterator() );
     }
     else {
-      return multtab( extent_iterator( s->bells - 1, 1 ),
+      return multtab( extent_iterator( s->bells - hunts, hunts ),
                       extent_iterator() );
     }
   }
-- 
2.43.0


From 7b12cc36a9eab70c1b5e44c616a22140ddf114ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:26 +0000
Subject: [PATCH 137/193] fix: touchsearch: the maximum length was ignored with
 a plan

---
 apps/touchsearch/join_plan_search.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/touchsearch/join_plan_search.cpp b/apps/touchsearch/join_plan_search.cpp
index 27120e0..de1d381 100644
--- a/apps/touchsearch/join_plan_search.cpp
+++ b/apps/touchsearch/join_plan_search.cpp
@@ -229,7 +229,8 @@ private:
     if ( leads[lh.index()] || leads[le.index()] ) 
       {
         // Has it come round, and is it in it's canonical form?
-        if ( depth >= lenrange.first && lh.isrounds() )
+        if ( depth >= lenrange.first && depth <= lenrange.second
+             && lh.isrounds() )
           output_touch( output );
       }
     else if ( depth < lenrange.second )
-- 
2.43.0


From 310aaff7701576c7b5a17f29a14df2b777f3f043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:26 +0000
Subject: [PATCH 138/193] fix: touchsearch: -g put a comma before the first
 lead

---
 apps/touchsearch/main.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apps/touchsearch/main.cpp b/apps/touchsearch/main.cpp
index 00392d3..33a9279 100644
--- a/apps/touchsearch/main.cpp
+++ b/apps/touchsearch/main.cpp
@@ -85,7 +85,7 @@ public:
       = dynamic_cast<touch_child_list const*>( t.get_head() );
     assert( tl );
      
-    size_t len = 0;   row r(args.bells);
+    size_t len = 0;   row r(args.bells);   bool first = true;
     do for ( list<touch_child_list::entry>::const_iterator
                i = tl->children().begin(), e = tl->children().end();  
                i != e;  ++i ) 
@@ -100,7 +100,8 @@ public:
         size_t cn = find( args.calls.begin(), args.calls.end(), c ) 
             - args.calls.begin();
 
-        if ( (flags & comma_separate) && len != 0 ) cout << ',';
+        if ( (flags & comma_separate) && !first ) cout << ',';
+        first = false;
         if ( cn < args.calls.size() ) cout << args.call_strs[cn];
         else cout << args.plain_name;
       }
-- 
2.43.0


From 8572721fb2d698068b7e0d87de8d67c468c41a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:47 +0000
Subject: [PATCH 139/193] fix: touchsearch: a row in a plan of another number
 of bells caused a crash

---
 apps/touchsearch/main.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/apps/touchsearch/main.cpp b/apps/touchsearch/main.cpp
index 33a9279..3653589 100644
--- a/apps/touchsearch/main.cpp
+++ b/apps/touchsearch/main.cpp
@@ -150,16 +150,15 @@ void read_plan( int bells, istream& in, map<row, method>& plan )
 {
   string line;  
   int n=1;
-  while ( getline(in, line) ) {
+  for ( ; getline(in, line); ++n ) {
     RINGING_ISTRINGSTREAM linestr(line);
     row r;    string pn, name;
-    if ( !(linestr >> r >> pn) )  {
+    if ( !(linestr >> r >> pn) || r.bells() > bells )  {
       cerr << "Error reading line #" << n << "\n";
       continue;
     }
     linestr >> name; // We don't care about errors here
-    ++n;
-    plan[r] = method( pn, bells, name );
+    plan[ row(bells) * r ] = method( pn, bells, name );
   }
 }
 
-- 
2.43.0


From 133b1d2a7f58b4a723216c909bf751ae325b8a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:51 +0000
Subject: [PATCH 140/193] fix: touchsearch: a part end of too many bells caused
 a crash

---
 apps/touchsearch/prog_args.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apps/touchsearch/prog_args.cpp b/apps/touchsearch/prog_args.cpp
index 8b7c0f1..b4dd63c 100644
--- a/apps/touchsearch/prog_args.cpp
+++ b/apps/touchsearch/prog_args.cpp
@@ -235,6 +235,11 @@ bool arguments::generate_pends( arg_parser& ap )
           i( pend_strs.begin() ), e( pend_strs.end() ); i != e; ++i )
     {
       row const g( row(bells) * row(*i) );
+      if ( g.bells() > bells ) {
+        ap.error( make_string() << "The part end '" << *i 
+                  << "' has too many bells" );
+        return false;
+      }
       gens.push_back(g);
     }
 
-- 
2.43.0


From 9af842068da349ab89be019c50a02510acc3db97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:49 +0000
Subject: [PATCH 141/193] fix: touchsearch: a method of no changes in a plan
 caused a crash

---
 apps/touchsearch/main.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/apps/touchsearch/main.cpp b/apps/touchsearch/main.cpp
index 3653589..b6b1169 100644
--- a/apps/touchsearch/main.cpp
+++ b/apps/touchsearch/main.cpp
@@ -158,7 +158,13 @@ void read_plan( int bells, istream& in, map<row, method>& plan )
       continue;
     }
     linestr >> name; // We don't care about errors here
-    plan[ row(bells) * r ] = method( pn, bells, name );
+
+    method const m( pn, bells, name );
+    if ( m.empty() ) {
+      cerr << "Error reading line #" << n << "\n";
+      continue;
+    }
+    plan[ row(bells) * r ] = m;
   }
 }
 
-- 
2.43.0


From e3111b1498c3384c4b5187a8bfd24c23ec61bcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:35 +0000
Subject: [PATCH 142/193] fix: touchsearch: a method of no changes in a list
 crashed the filter

---
 apps/touchsearch/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/touchsearch/main.cpp b/apps/touchsearch/main.cpp
index b6b1169..197f1c3 100644
--- a/apps/touchsearch/main.cpp
+++ b/apps/touchsearch/main.cpp
@@ -211,6 +211,8 @@ void filter( arguments const& args )
       method filter_method;
       try {
         filter_method = i->meth();
+        if ( filter_method.empty() )
+          throw std::runtime_error( "The method has no changes" );
       } 
       catch ( std::exception const& ex ) {
         std::cerr << "Error reading method from input stream: "
-- 
2.43.0


From e283ced026572e54b4137506d850f6562f252da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:44 +0000
Subject: [PATCH 143/193] fix: fextent: every search for whole courses failed

---
 apps/fextent/fextent.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 428a4a8..0324e5c 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -653,9 +653,13 @@ void state::init_mt( method const& m, group const& pgrp,
 {
   status_out( "Generating multiplication table ..." );
 
+  // If the part ends keep the tenor at home, each course has just one 
+  // course head in the table, and there's no need to factor out the rest.
   group postgroup;
   if ( flags & whole_courses )
-    postgroup = group( m.lh() );
+    for ( group::const_iterator i( pgrp.begin() ); i != pgrp.end(); ++i )
+      if ( (*i)[bells-1] != bells-1 ) 
+        postgroup = group( m.lh() );
 
   if ( flags & in_course_only )
     mt.reset( new multtab( incourse_extent_iterator(nw, nh, bells),
-- 
2.43.0


From 15e2a8fee927cb8520ffa17e7e448cc49bcc4a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:07 +0000
Subject: [PATCH 144/193] fix: fextent: required rows were replaced by others
 or searched for endlessly

---
 apps/fextent/fextent.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 0324e5c..427ca9a 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -757,15 +757,24 @@ void state::init_req( const method& m, vector<row> const& required_rows )
 		  << ( flags & whole_courses ? "courses " : "rows " )
 		  << "[" << ++n << "/" << required_rows.size() <<  "] ..." );
 
-      row_t r;
-      {
+      row r2(*i);
+      if ( flags & whole_courses ) {
+	// Find the course head -- it has the tenor at home
 	row const lh( m.lh() );
-	row r2(*i);
-	while ( r2[bells - 1] != bells - 1 )
-	  r2 = lh * r2;
-	r = mt->find(r2);
+	for ( int li=0; li < courselen && r2[bells - 1] != bells - 1; ++li )
+	  r2 *= lh;
       }
 
+      if ( nh && r2[0] != 0
+	   || flags & whole_courses   && r2[bells - 1] != bells - 1
+	   || flags & tenors_together && !is_tt(r2)
+	   || flags & in_course_only  && r2.sign() == -1 )
+	throw runtime_error
+	  ( make_string() << "Error: the required row " << *i
+	    << " is not one of those being searched for" );
+
+      row_t const r( mt->find(r2) );
+
       if ( find( req_rows.begin(), req_rows.end(), r ) != req_rows.end() )
 	throw runtime_error
 	  ( "Error: the required rows conflict with the part-end group" );
-- 
2.43.0


From a403a160e6cf37cac3c8edbba5393540108fd93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:07 +0000
Subject: [PATCH 145/193] fix: fextent: -t without -c, or on fewer than seven
 bells, failed an assertion

---
 apps/fextent/fextent.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 427ca9a..ff73370 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -435,6 +435,11 @@ bool arguments::validate( arg_parser& ap )
     return false;
   }
 
+  if ( tenors_together && !whole_courses ) {
+    ap.error( "Searching for tenors-together leads is not supported" );
+    return false;
+  }
+
   if ( !generate_pends( ap ) ) 
     return false;
 
@@ -943,7 +948,7 @@ state::state( const method& m, int flags, const group& pgrp,
   nh = flags & principle ? 0 : 1;
 
   if ( flags & whole_courses )
-    nw = flags & tenors_together ? 5 : m.bells() - 1 - nh;
+    nw = flags & tenors_together && m.bells() > 7 ? 5 : m.bells() - 1 - nh;
   else
     nw = m.bells() - nh;
   
-- 
2.43.0


From 79c9db42081eb548648ad30a7daf9f58f78be611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:28 +0000
Subject: [PATCH 146/193] fix: fextent: unsuitable part ends and required rows
 failed assertions

---
 apps/fextent/fextent.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index ff73370..5d08303 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -194,6 +194,14 @@ bool arguments::generate_pends( arg_parser& ap )
     {
       row const g( row(bells) * row(*i) );
 
+      if ( g.bells() > bells || !principle && g[0] != 0 
+	   || in_course && g.sign() == -1 
+	   || tenors_together && !is_tt(g) ) {
+	ap.error( make_string() << "The part end '" << *i << "' does not "
+		  "keep to the rows being searched" );
+	return false;
+      }
+
       // This is hopelessly broken.  Let's just admit it and bail out.
       if ( linkage && whole_courses && g[bells-1] != bells-1 ) {
 	ap.error( "Part end groups affecting the tenor are not supported " 
@@ -221,6 +229,11 @@ bool arguments::generate_required( arg_parser& ap )
   for ( vector<string>::const_iterator
 	  i( required_strs.begin() ), e( required_strs.end() ); i != e; ++i ) {
     row const r( row(bells) * row(*i) );
+    if ( r.bells() > bells ) {
+      ap.error( make_string() << "The required row '" << *i 
+		<< "' has too many bells" );
+      return false;
+    }
     if ( in_course && r.sign() == -1 ) {
       ap.error( make_string() << "Out-of-course lead '"
 		<< r << "' required in in-course composition" );
-- 
2.43.0


From 1f6b2c35fed21d646f4e37d142abaeae8ca07d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:28 +0000
Subject: [PATCH 147/193] fix: fextent: a negative number of iterations never
 ended

---
 apps/fextent/fextent.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 5d08303..8f8dcc8 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -443,6 +443,11 @@ bool arguments::validate( arg_parser& ap )
     return false;
   }
 
+  if ( num_steps < 1 ) {
+    ap.error( "The number of iterations must be positive" );
+    return false;
+  }
+
   if ( principle & whole_courses ) {
     ap.error( "Searching for principles in whole courses is not supported" );
     return false;
-- 
2.43.0


From e6cc1685b38ddca1cf634508817e99c063955220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:28 +0000
Subject: [PATCH 148/193] fix: part ends that do not suit a multiplication
 table failed an assertion

---
 ringing/multtab.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ringing/multtab.cpp b/ringing/multtab.cpp
index ce153dc..ed96fde 100644
--- a/ringing/multtab.cpp
+++ b/ringing/multtab.cpp
@@ -120,8 +120,10 @@ void multtab::init( const vector< row >& r )
         i != e; ++i ) 
     rows2.insert( make_representative(*i) );
 
-  // TODO:  Better error checking for this:
-  assert( rows2.size() == r.size() / pends.size() );
+  if ( rows2.size() != r.size() / pends.size() )
+    throw logic_error
+      ( "The part ends do not divide the rows of the multiplication table "
+	"into parts" );
 
   // Force the capacity to be reduced.  
   // (Calling clear doesn't necessarily do this.)
-- 
2.43.0


From f0d12539289232eade15d959bc2cf26a2ab0e304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:28 +0000
Subject: [PATCH 149/193] fix: fextent: -k removed required leads

---
 apps/fextent/fextent.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 8f8dcc8..de70e26 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -1482,6 +1482,7 @@ bool state::perturbation::prune_unlinked( row_t const& r )
 {
   if ( ( s.is_present(r) && !is_removed(r) ||
 	 s.is_absent (r) &&  is_added  (r) ) &&
+       s.leads[r.index()] != required &&
        get_linkage(r) == size_t(-1) )
     {
       do_rm_row(r);
@@ -1511,11 +1512,8 @@ void state::prune_unlinked()
       
       if ( done_anything ) 
 	p.commit( *this );
-      else
-	{
-	  assert( fully_linked() );
-	  return;
-	}
+      else // Anything still unlinked is required
+	return;
     }
 }
 
-- 
2.43.0


From 44ba3ed47ea52b99a0a4c5f00da3f789dc8b862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 150/193] fix: fextent: weights that are not sums of halves, or
 not positive, failed assertions

---
 apps/fextent/fextent.cpp | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index de70e26..a6c2175 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -1037,6 +1037,12 @@ size_t state::check_qsets( row_t r ) const
 
 
 
+// Scores are sums of weights, added in different orders
+inline bool same_score( double a, double b )
+{
+  return fabs( a - b ) <= 1e-6 * ( 1 + fabs(a) + fabs(b) );
+}
+
 bool state::check() const
 {
   double realsc = 0;
@@ -1054,7 +1060,7 @@ bool state::check() const
     return false;
   }
 
-  if ( realsc != sc ) {
+  if ( !same_score( realsc, sc ) ) {
     cerr << "ERROR: Score mismatch: actual " << realsc << "; expected " << sc << endl;
     return false;
   }
@@ -1121,20 +1127,16 @@ private:
   // Row status
   //
   bool is_added( row_t const& r ) const
-    { map<row_t, double, row_t::cmp>::const_iterator i = rdiff.find(r);
+    { map<row_t, int, row_t::cmp>::const_iterator i = rdiff.find(r);
       return i != rdiff.end() && i->second > 0; }
   bool is_removed( row_t const& r ) const 
-    { map<row_t, double, row_t::cmp>::const_iterator i = rdiff.find(r);
+    { map<row_t, int, row_t::cmp>::const_iterator i = rdiff.find(r);
       return i != rdiff.end() && i->second < 0; }
 
-  // TODO:  It is bad to assume that  (double(w) - double(w) == 0.0)
-
   void do_add_row( row_t const& r )
-    { double const w( s.weight[ r.index() ] ); 
-      d += w; if ( (rdiff[r] += w) == 0 ) rdiff.erase(r); }
+    { d += s.weight[ r.index() ]; if ( ++rdiff[r] == 0 ) rdiff.erase(r); }
   void do_rm_row( row_t const& r )
-    { double const w( s.weight[ r.index() ] ); 
-      d -= w; if ( (rdiff[r] -= w) == 0 ) rdiff.erase(r); }
+    { d -= s.weight[ r.index() ]; if ( --rdiff[r] == 0 ) rdiff.erase(r); }
 
   //
   // General linkage
@@ -1160,7 +1162,7 @@ private:
   //
   state const& s;
 
-  map<row_t, double, row_t::cmp> rdiff; // +1 to add, -1 to remove
+  map<row_t, int, row_t::cmp> rdiff; // +1 to add, -1 to remove
   map<row_t, pair<int, size_t>, row_t::cmp> ldiff;
   double d;
 };
@@ -1242,15 +1244,15 @@ bool state::perturbation::check_delta() const
 {
   double real_delta(0);
 
-  for ( map<row_t, double, row_t::cmp>::const_iterator 
+  for ( map<row_t, int, row_t::cmp>::const_iterator 
 	  i(rdiff.begin()), e(rdiff.end());  i != e;  ++i )
-    real_delta += i->second;
+    real_delta += i->second * s.weight[ i->first.index() ];
 
   for ( map< row_t, pair<int, size_t>, row_t::cmp>::const_iterator 
 	  i(ldiff.begin()), e(ldiff.end());  i != e;  ++i )
     real_delta += i->second.first * s.link_weight;
 
-  return real_delta == d;
+  return same_score( real_delta, d );
 }
 
 void state::perturbation::try_add_qset( row_t const& r )
@@ -1435,7 +1437,7 @@ void state::perturbation::commit2( state& s, lead_state add, lead_state rm )
 {
   DEBUG( "Committing -- delta " << d );
 
-  for ( map<row_t, double, row_t::cmp>::const_iterator 
+  for ( map<row_t, int, row_t::cmp>::const_iterator 
 	  i(rdiff.begin()), e(rdiff.end());  i != e;  ++i )
     {
       DEBUG( "Commit row: " << i->first.index() << ", score " << i->second );
@@ -1444,10 +1446,9 @@ void state::perturbation::commit2( state& s, lead_state add, lead_state rm )
       if ( i->second > 0 && s.is_absent(i->first) ||
 	   i->second < 0 && s.is_present(i->first) )
 	{
-	  // TODO Gah! More assertions on floating equalities.  Bad, bad, bad.
-	  assert( s.weight[ i->first.index() ] == i->second * sign(i->second) );
-	  s.sc += i->second;
-	  s.len += sign(i->second);
+	  assert( i->second * sign(i->second) == 1 );
+	  s.sc += i->second * s.weight[ i->first.index() ];
+	  s.len += i->second;
 	}
 
       s.leads[ i->first.index() ] = ( (i->second > 0) ? add : rm );
-- 
2.43.0


From 8885f9ed736c7edf675ee388970203d700c5fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 151/193] fix: fextent: a required lead that is false in
 different parts was accepted

---
 apps/fextent/fextent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index a6c2175..07724db 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -805,7 +805,8 @@ void state::init_req( const method& m, vector<row> const& required_rows )
       for ( vector<fch_t>::const_iterator fi( fchs.begin() ), fe( fchs.end() );
 	    fi != fe; ++fi ) {
 	row_t f( r * *fi );
-	if ( find( req_rows.begin(), req_rows.end(), f ) != req_rows.end() )
+	if ( f == r 
+	     || find( req_rows.begin(), req_rows.end(), f ) != req_rows.end() )
 	  throw runtime_error
 	    ( "Error: the required rows conflict with the falseness" );
       }
-- 
2.43.0


From 7fd875d207771f6b98b0f0d5c1866419a4baaf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:03 +0000
Subject: [PATCH 152/193] fix: fextent: whole courses with more than one course
 head failed an assertion

---
 apps/fextent/fextent.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 07724db..22ba383 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -713,6 +713,18 @@ void state::init_fchs( method const& m )
 {
   assert( flags & whole_courses );
 
+  // Each course must have just one course head
+  {
+    row const lh( m.lh() );
+    row ch( lh );
+    while ( ch[bells-1] != bells-1 ) 
+      ch *= lh;
+    if ( nh && lh[0] != 0 || !ch.isrounds() )
+      throw runtime_error
+	( "Error: searching for whole courses requires a method in which the "
+	  "treble leads at each lead head, and the tenor is home just once in the course" );
+  }
+
   status_out( "Calculating false course table ..." );
 
   false_courses ft
-- 
2.43.0


From 366b4565be23056c7c52b6fde4b50a7ec34d85f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:03 +0000
Subject: [PATCH 153/193] fix: fextent: calls to leads that were not being
 searched for failed an assertion

---
 apps/fextent/fextent.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 22ba383..715c6c0 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -833,14 +833,22 @@ void state::init_lhs( method const& m, vector<change> const& calls )
 {
   assert( !( flags & whole_courses ) );
 
-  lhs.push_back( make_pair( mt->compute_post_mult( m.lh() ),
-			    mt->compute_post_mult( m.lh().inverse() ) ) );
-
   row const le( m.lh() * m.back() );
 
+  vector<row> lead_heads( 1, m.lh() );
   for ( size_t ci(0); ci != calls.size(); ++ci ) 
+    lead_heads.push_back( le * calls[ci] );
+
+  for ( size_t li(0); li != lead_heads.size(); ++li ) 
     {
-      row const lh( le * calls[ci] );
+      row const& lh( lead_heads[li] );
+
+      if ( nh && lh[0] != 0 
+	   || flags & in_course_only && lh.sign() == -1 )
+	throw runtime_error
+	  ( make_string() << "Error: the lead head " << lh
+	    << " is not one of those being searched for" );
+
       lhs.push_back( make_pair( mt->compute_post_mult( lh ),
 				mt->compute_post_mult( lh.inverse() ) ) );
     }
@@ -886,6 +894,8 @@ void state::init_qsets( method const& m, vector<change> const& calls )
 		  const row q( *li * *qi * *lj );
 		  
 		  if ( q[bells-1] != bells-1 ) continue;
+		  if ( nh && q[0] != 0 ) continue;
+		  if ( (flags & in_course_only) && q.sign() == -1 ) continue;
 		  if ( (flags & tenors_together) && !is_tt(q) ) continue;
 
 		  // We'll calculate the inverse at some point anyway
-- 
2.43.0


From 142ef042d0510c4677fc0b0ce2ea322fbe682091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:15 +0000
Subject: [PATCH 154/193] fix: fextent: linkage by calls of several courses was
 miscounted

---
 apps/fextent/fextent.cpp | 58 +++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 715c6c0..23eefb9 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -25,6 +25,8 @@
 #include <ringing/streamutils.h>
 #include <ringing/mathutils.h>
 
+#include <algorithm>
+#include <set>
 #include <vector>
 #include <cmath>
 #include <ctime>
@@ -859,7 +861,7 @@ void state::init_qsets( method const& m, vector<change> const& calls )
   assert( flags & whole_courses );
 
   group const lhg( m.lh() );
-  vector< vector<fch_t> > qinverses;
+  vector< vector<row> > qrows; // including rounds
 
   int n(0);
   for ( size_t ci(0); ci != calls.size(); ++ci )
@@ -873,7 +875,7 @@ void state::init_qsets( method const& m, vector<change> const& calls )
       for ( group::const_iterator li( lhg.begin() ); li != le; ++li ) 
 	{
 	  vector< pair<fch_t, size_t> > qset;
-	  vector<fch_t> qinverse;
+	  vector<row> qrow( 1, row(bells) );
 	  
 	  make_string desc;
 	  desc << "Q" << qsets.size() << " (call " << calls[ci] << "): ";
@@ -898,9 +900,7 @@ void state::init_qsets( method const& m, vector<change> const& calls )
 		  if ( (flags & in_course_only) && q.sign() == -1 ) continue;
 		  if ( (flags & tenors_together) && !is_tt(q) ) continue;
 
-		  // We'll calculate the inverse at some point anyway
-		  // so this does not add to the size of mt.
-		  qinverse.push_back( mt->compute_post_mult( q.inverse() ) );
+		  qrow.push_back( q );
 
 		  qset.push_back
 		    ( make_pair( mt->compute_post_mult(q), size_t(-1) ) );
@@ -913,20 +913,23 @@ void state::init_qsets( method const& m, vector<change> const& calls )
 
 	  bool ok( qset.size() == qproto.size()-1 );
 
-	  // Check that the Q-set does not intersect the FCHs.
-	  for ( vector< pair<fch_t, size_t> >::const_iterator 
-		  qi( qset.begin() ), qe( qset.end() );
-		ok && qi != qe; ++qi )
-	    for ( vector<fch_t>::const_iterator 
-		    fi( fchs.begin() ), fe( fchs.end() );
-		  ok && fi != fe; ++fi )
-	      if ( *fi == qi->first )
-		ok = false;
+	  // Check that no two courses of the Q-set are false against each 
+	  // other.  What takes one to another is in the Q-set from the point 
+	  // of view of the first, so this does not add to the size of mt.
+	  for ( size_t i(0); ok && i != qrow.size(); ++i )
+	    for ( size_t j(0); ok && j != qrow.size(); ++j )
+	      if ( i != j ) 
+		{
+		  fch_t const q
+		    ( mt->compute_post_mult( qrow[i].inverse() * qrow[j] ) );
+		  if ( find( fchs.begin(), fchs.end(), q ) != fchs.end() )
+		    ok = false;
+		}
 
 	  if (ok) {
 	    cout << string(desc) << endl;
 	    qsets.push_back( make_pair( qset, ci ) );
-	    qinverses.push_back( qinverse );
+	    qrows.push_back( qrow );
 	  }
 	}
     }
@@ -935,33 +938,28 @@ void state::init_qsets( method const& m, vector<change> const& calls )
     // Set up the inverse Q-set links 
     //
     size_t const n( qsets.size() );
-    assert( qinverses.size() == n );
+    assert( qrows.size() == n );
 
     for ( size_t i(0); i != n; ++i ) 
       {
-	group const qproto( row() * m.back() * calls[qsets[i].second] );
-
-	size_t const m( qproto.size() - 1 );
+	size_t const m( qrows[i].size() - 1 );
 	assert( m == qsets[i].first.size() );
 
+	set<row> const courses( qrows[i].begin(), qrows[i].end() );
+
 	for ( size_t j(0); j != m; ++j )
 	  {
-	    // Locate the inverse element in the Q-set
-	    size_t jinv;
-	    {
-	      group::const_iterator gi( qproto.begin() ); 
-	      advance( gi, j+1 );
-	      gi = find( qproto.begin(), qproto.end(), gi->inverse() );
-	      jinv = distance( qproto.begin(), gi ) - 1;
-	    }
-
+	    // Locate the Q-set from the point of view of this course
 	    bool found(false);
 
 	    for ( size_t k(0); !found && k != n; ++k )
 	      if ( qsets[i].second == qsets[k].second ) 
 		{
-		  assert( qsets[k].first.size() == m );
-		  if ( qsets[i].first[j].first == qinverses[k][jinv] )
+		  set<row> others;
+		  for ( size_t l(0); l != qrows[k].size(); ++l )
+		    others.insert( qrows[i][j+1] * qrows[k][l] );
+
+		  if ( others == courses )
 		    {  
 		      qsets[i].first[j].second = k;
 		      found = true;
-- 
2.43.0


From 577ffc1d9a5d898023cd3834ccbce39671385573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:20 +0000
Subject: [PATCH 155/193] fix: methodlib: -a with -t crashed

---
 apps/methodlib/methodlib.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apps/methodlib/methodlib.cpp b/apps/methodlib/methodlib.cpp
index 0a080d4..c53ac98 100644
--- a/apps/methodlib/methodlib.cpp
+++ b/apps/methodlib/methodlib.cpp
@@ -157,6 +157,11 @@ bool arguments::validate( arg_parser& ap )
     return false;
   }
 
+  if ( copy_payload && !titles.empty() ) {
+    ap.error( "-a may only be used for titles that are read from the input" );
+    return false;
+  }
+
   suffixes = split_path(suffixstr);
   if (suffixes.empty())
     suffixes.push_back(string());
-- 
2.43.0


From 4406063b6239d347bc423677540d32166078e310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:39 +0000
Subject: [PATCH 156/193] fix: printmethod: a number of bells that is not one
 crashed

---
 apps/printmethod/main.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/apps/printmethod/main.cpp b/apps/printmethod/main.cpp
index a3ba3f1..b2b7a8f 100644
--- a/apps/printmethod/main.cpp
+++ b/apps/printmethod/main.cpp
@@ -135,7 +135,15 @@ bool arguments::validate( arg_parser &ap )
 {
   size_t i = methstr.find(':');
   if ( i != string::npos ) {
-    unsigned b = lexical_cast<unsigned>( methstr.substr(0,i) );
+    int b = 0;
+    try {
+      b = lexical_cast<int>( methstr.substr(0,i) );
+    } 
+    catch ( bad_lexical_cast const& ) {
+      ap.error( make_string() << "Error: '" << methstr.substr(0,i) 
+                << "' is not a number of bells" );
+      return false;
+    }
     if (bells && b != bells) {
       ap.error("Mismatch between number of bells specified");
       return false;
@@ -149,6 +157,12 @@ bool arguments::validate( arg_parser &ap )
     return false;
   }
 
+  if ( bells < 1 || bells > int(bell::MAX_BELLS) ) {
+    ap.error( make_string() << "The number of bells must be between 1 and " 
+              << bell::MAX_BELLS << " (inclusive)" );
+    return false;
+  }
+
   try {
     meth = method( methstr, bells );
   } 
-- 
2.43.0


From e0d26741a664bdfa08b8dabdf57247e408f7999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:09 +0000
Subject: [PATCH 157/193] fix: bold bells on some terminals were printed with
 padding instructions

---
 apps/utils/bell_fmt.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/apps/utils/bell_fmt.cpp b/apps/utils/bell_fmt.cpp
index f7b9431..d0ad1f0 100644
--- a/apps/utils/bell_fmt.cpp
+++ b/apps/utils/bell_fmt.cpp
@@ -61,6 +61,19 @@ void bell_fmt::set_colours(string const& r, string const& g, string const& b)
 }
 
 
+#if RINGING_USE_TERMCAP
+// Terminal strings include instructions for padding, such as "$<2>",
+// which terminals are not meant to receive
+static string without_padding(string seq)
+{
+  string::size_type i = 0, j;
+  while ( (i = seq.find("$<", i)) != string::npos 
+          && (j = seq.find('>', i)) != string::npos )
+    seq.erase(i, j - i + 1);
+  return seq;
+}
+#endif
+
 ostream& bell_fmt::do_fmt::operator<<(bell b) const
 {
 #if RINGING_USE_TERMCAP
@@ -72,12 +85,12 @@ ostream& bell_fmt::do_fmt::operator<<(bell b) const
     if ( char const* seq 
            = tparm( RINGING_TERMINFO_VAR( set_a_foreground ), 
                     c->second.colour ) ) {
-      *os << seq; coloured = true;
+      *os << without_padding(seq); coloured = true;
     }
 
     if ( c->second.bold )
       if ( char const* seq = RINGING_TERMINFO_VAR( enter_bold_mode ) ) {
-        *os << seq; bold = true;
+        *os << without_padding(seq); bold = true;
       }
   }
 #endif
@@ -88,10 +101,10 @@ ostream& bell_fmt::do_fmt::operator<<(bell b) const
   if ( c != bf->fmts.end() ) {
     if ( bold ) 
       if ( char const* seq = RINGING_TERMINFO_VAR( exit_attribute_mode ) ) 
-        *os << seq;
+        *os << without_padding(seq);
     if ( coloured )
       if ( char const* seq = RINGING_TERMINFO_VAR( orig_pair ) )
-        *os << seq;
+        *os << without_padding(seq);
   }
 #endif
 
-- 
2.43.0


From 195fa92929ded9f901797b88a9d2ae197038fd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:13 +0000
Subject: [PATCH 158/193] fix: psline: negative numbers of rows, leads, columns
 and pages crashed or never ended

---
 apps/psline/psline.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/apps/psline/psline.cpp b/apps/psline/psline.cpp
index 9759b55..5a42165 100644
--- a/apps/psline/psline.cpp
+++ b/apps/psline/psline.cpp
@@ -97,6 +97,16 @@ bool parse_int(const string& arg, int& i)
   return true;
 }
 
+bool parse_count(const string& arg, int& i)
+{
+  if(!parse_int(arg, i)) return false;
+  if(i < 0) {
+    cerr << "Negative argument: \"" << arg << "\"\n";
+    return false;
+  }
+  return true;
+}
+
 bool parse_float(const string& arg, float& f)
 {
   try {
@@ -319,22 +329,22 @@ bool myopt::process(const string& arg, const arg_parser& ap) const
       break;
     case 'i' :
       args.rows_per_column = 0;
-      return parse_int(arg, args.leads_per_column);
+      return parse_count(arg, args.leads_per_column);
     case 'I' :
       args.leads_per_column = 0;
-      return parse_int(arg, args.rows_per_column);
+      return parse_count(arg, args.rows_per_column);
     case 'j' :
       args.total_rows = 0;
-      return parse_int(arg, args.total_leads);
+      return parse_count(arg, args.total_leads);
     case 'J' :
       args.total_leads = 0;
-      return parse_int(arg, args.total_rows);
+      return parse_count(arg, args.total_rows);
     case 'g' :
-      return parse_int(arg, args.pages);
+      return parse_count(arg, args.pages);
     case 'd' :
-      return parse_int(arg, args.sets_per_page);
+      return parse_count(arg, args.sets_per_page);
     case 'k' :
-      return parse_int(arg, args.columns_per_set);
+      return parse_count(arg, args.columns_per_set);
     case 'x' :
       args.fit = false;
       return parse_dimension(arg, args.xspace);
-- 
2.43.0


From abaa667796a4c43b006eefa09a7d482f43c901a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:27 +0000
Subject: [PATCH 159/193] fix: psline: -x and -y without a space to fit crashed

---
 apps/psline/psline.cpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/apps/psline/psline.cpp b/apps/psline/psline.cpp
index 5a42165..c59cb48 100644
--- a/apps/psline/psline.cpp
+++ b/apps/psline/psline.cpp
@@ -760,6 +760,8 @@ int main(int argc, char *argv[])
       swap(args.width, args.height);
       swap(args.fitwidth, args.fitheight);
     }
+    // If the spacing was given instead, there is nothing to fit to
+    const bool fitting = args.fit || args.fitwidth != 0;
     if(!args.title.empty())
       args.fitheight.set_float(args.fitheight.in_points() 
 			       - args.title_style.size * 0.2f, 1);
@@ -788,7 +790,9 @@ int main(int argc, char *argv[])
 				  args.pages * pm.sets_per_page
 				  * pm.rows_per_column);
       }
-      pm.scale_to_space(args.fitwidth, args.fitheight, args.numbers ? 1.f : 2.f);
+      if(fitting)
+        pm.scale_to_space(args.fitwidth, args.fitheight, 
+                          args.numbers ? 1.f : 2.f);
     } else {
       if(args.columns_per_set) {
 	pm.columns_per_set = args.columns_per_set;
@@ -799,8 +803,9 @@ int main(int argc, char *argv[])
 				  args.pages * pm.columns_per_set
 				  * pm.sets_per_page * m.length())
 	  * m.length();
-	pm.scale_to_space(args.fitwidth, args.fitheight, 
-			  args.numbers ? 1.f : 2.f);
+	if(fitting)
+	  pm.scale_to_space(args.fitwidth, args.fitheight, 
+			    args.numbers ? 1.f : 2.f);
       } else {
 	if(args.sets_per_page) {
 	  pm.rows_per_column = m.length();
@@ -809,14 +814,21 @@ int main(int argc, char *argv[])
 	  pm.columns_per_set = divu(pm.total_rows,
 				    args.pages * pm.sets_per_page
 				    * pm.rows_per_column);
-	  pm.scale_to_space(args.fitwidth, args.fitheight, 
-			    args.numbers ? 1.f : 2.f);
+	  if(fitting)
+	    pm.scale_to_space(args.fitwidth, args.fitheight, 
+			      args.numbers ? 1.f : 2.f);
 	} else {
 	  if(!args.pages) args.pages = 1;
           int tr = pm.total_rows;
 	  pm.total_rows = divu(tr, args.pages * m.length()) * m.length();
-	  pm.fit_to_space(args.fitwidth, args.fitheight, 
-			  args.vgap_mode, args.numbers ? 1.f : 2.f);
+	  if(fitting)
+	    pm.fit_to_space(args.fitwidth, args.fitheight, 
+			    args.vgap_mode, args.numbers ? 1.f : 2.f);
+	  else {
+	    pm.rows_per_column = m.length();
+	    pm.columns_per_set = pm.total_rows / m.length();
+	    pm.sets_per_page = 1;
+	  }
 	  pm.total_rows = tr;
 	}
       }
@@ -828,6 +840,10 @@ int main(int argc, char *argv[])
     pm.opt.style.col = args.col;
     if(args.xspace != 0) pm.opt.xspace = args.xspace;
     if(args.yspace != 0) pm.opt.yspace = args.yspace;
+    if(!fitting) {
+      pm.hgap = pm.opt.xspace * 3;
+      pm.vgap = pm.opt.yspace;
+    }
     if(args.hgap != 0) pm.hgap = args.hgap;
     if(args.vgap != 0) pm.vgap = args.vgap;
     pm.number_mode = args.number_mode;
-- 
2.43.0


From bd5dd7cb7cff3f818f8c7b4d2f4dfdeede37f06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:37 +0000
Subject: [PATCH 160/193] fix: psline: crashed when there was no space to fit
 the method in

---
 apps/psline/psline.cpp | 5 +++++
 ringing/printm.cpp     | 1 +
 2 files changed, 6 insertions(+)

diff --git a/apps/psline/psline.cpp b/apps/psline/psline.cpp
index c59cb48..656f77f 100644
--- a/apps/psline/psline.cpp
+++ b/apps/psline/psline.cpp
@@ -765,6 +765,11 @@ int main(int argc, char *argv[])
     if(!args.title.empty())
       args.fitheight.set_float(args.fitheight.in_points() 
 			       - args.title_style.size * 0.2f, 1);
+    if(fitting && (args.fitwidth.in_points() <= 0 
+		   || args.fitheight.in_points() <= 0)) {
+      cerr << argv[0] << ": There is no space to fit the method in" << endl;
+      return 1;
+    }
     
     // Now fit to the space
     if(args.leads_per_column || args.rows_per_column) {
diff --git a/ringing/printm.cpp b/ringing/printm.cpp
index 1520fc3..03d28d6 100644
--- a/ringing/printm.cpp
+++ b/ringing/printm.cpp
@@ -267,6 +267,7 @@ void printmethod::fit_to_space(const dimension& width,
   }
 
   leads_per_column -= 2;
+  if(leads_per_column < 1) leads_per_column = 1; // No space at all
   if(vgap_mode) {
     rows_per_column = lead;
     sets_per_page = leads_per_column;
-- 
2.43.0


From cc62ca4835c72c35c1375e982dec73b61d8f72cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:42 +0000
Subject: [PATCH 161/193] fix: psline: an EPS file of several pages was not
 valid

---
 apps/psline/psline.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/apps/psline/psline.cpp b/apps/psline/psline.cpp
index 656f77f..59e9de2 100644
--- a/apps/psline/psline.cpp
+++ b/apps/psline/psline.cpp
@@ -839,6 +839,13 @@ int main(int argc, char *argv[])
       }
     }
 
+    if(args.format == eps 
+       && pm.total_rows > static_cast<float>(pm.rows_per_column)
+			  * pm.columns_per_set * pm.sets_per_page) {
+      cerr << argv[0] << ": An EPS file can only have one page" << endl;
+      return 1;
+    }
+
     // Set up the things which override the fitting, and everything else
     if(!args.font.empty()) pm.opt.style.font = args.font;
     if(args.font_size) pm.opt.style.size = args.font_size;
-- 
2.43.0


From b4c9582c740a4a19936a4e3efcd8a9cda92e68ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:40 +0000
Subject: [PATCH 162/193] fix: psline: more bells than there can be were not
 refused

---
 apps/psline/psline.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apps/psline/psline.cpp b/apps/psline/psline.cpp
index 59e9de2..b474511 100644
--- a/apps/psline/psline.cpp
+++ b/apps/psline/psline.cpp
@@ -640,6 +640,11 @@ int main(int argc, char *argv[])
       if(s == args.library_name.end() 
 	 || !parse_int(string(args.library_name.begin(), s), args.bells)) 
         { p.usage(); return 1; }
+      if(args.bells < 1 || args.bells > int(bell::MAX_BELLS)) {
+	cerr << argv[0] << ": The number of bells must be between 1 and "
+	     << bell::MAX_BELLS << endl;
+	return 1;
+      }
       args.library_name = string(++s, args.library_name.end());
     };
   }
-- 
2.43.0


From d69d7bf8b505df9d97f3c097705bba5fe1b5ebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:34 +0000
Subject: [PATCH 163/193] fix: Ranges with a negative number in them were not
 refused

---
 apps/utils/args.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/utils/args.cpp b/apps/utils/args.cpp
index b7e5eff..4a8123e 100644
--- a/apps/utils/args.cpp
+++ b/apps/utils/args.cpp
@@ -449,6 +449,9 @@ bool range_opt::process( const string &arg, const arg_parser& ap ) const
       else
 	opt.second = static_cast<size_t>(-1);
 
+      // Otherwise the second number would be read modulo 2^n
+      if ( arg.find('-', pos + 1) != string::npos ) throw bad_lexical_cast();
+
       if ( opt.second < opt.first ) {
 	ap.error( "Negative length range" );
 	return false;
-- 
2.43.0


From 53f0ba5e5f0728ac5197e5bffb098f3658d927e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:32 +0000
Subject: [PATCH 164/193] fix: A directory given as a file of arguments crashed
 the program

---
 apps/utils/argv.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apps/utils/argv.cpp b/apps/utils/argv.cpp
index cf00e0f..b263caa 100644
--- a/apps/utils/argv.cpp
+++ b/apps/utils/argv.cpp
@@ -45,6 +45,8 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <ctype.h>
+#include <sys/types.h>
+#include <sys/stat.h>
 
 #ifndef NULL
 #define NULL 0
@@ -443,7 +445,10 @@ expandargv (arg_parser const& ap, int *argcp, char ***argvp)
 	}
       /* Read the contents of the file.  */
       f = fopen (++filename, "r");
-      if (!f) {
+      /* A directory can be opened, but not read.  */
+      struct stat st;
+      if (!f || (stat (filename, &st) == 0 && (st.st_mode & S_IFMT) == S_IFDIR))
+	{
         ap.error( make_string() << "Unable to open @file " << filename );
 	exit (1);
       }
-- 
2.43.0


From 2b944fed945b950dde7cf98f2cfb9bae887057bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:59 +0000
Subject: [PATCH 165/193] fix: ringmethod: the sample rate in the header was
 wrong

---
 apps/ringmethod/ringmethod.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index d13fac2..09b75d1 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -249,9 +249,9 @@ row_player::row_player( tower_sounds& tower, int peal_speed, double hs_lead,
 static void sprintf_uint32le( char* pbuf, uint32_t val )
 {
   pbuf[0] = (val & 0x000000FF) >> 0x0;
-  pbuf[1] = (val & 0x0000FF00) >> 0x4;
-  pbuf[2] = (val & 0x00FF0000) >> 0x8;
-  pbuf[3] = (val & 0xFF000000) >> 0xC;
+  pbuf[1] = (val & 0x0000FF00) >> 0x8;
+  pbuf[2] = (val & 0x00FF0000) >> 0x10;
+  pbuf[3] = (val & 0xFF000000) >> 0x18;
 }
 
 void row_player::header( ostream& os )
-- 
2.43.0


From e91120989554d481f767d287edaf3d81b4e61562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:59 +0000
Subject: [PATCH 166/193] fix: ringmethod: seven and fourteen bells were an
 octave too high

---
 apps/ringmethod/ringmethod.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index 09b75d1..7f6f659 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -143,7 +143,7 @@ private:
 tower_sounds::tower_sounds( double tenor_freq, int num, int sample_rate )
   : srate(sample_rate)
 {
-  tenor_freq *= ipower( 2, num / 7 );
+  tenor_freq *= ipower( 2, (num - 1) / 7 );
   bellv.reserve(num);
   int n = num % 7;
   double a = 1, ax = 1.02;
-- 
2.43.0


From 8970ee043d5b880d106f59d2f332f4158034cfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:59 +0000
Subject: [PATCH 167/193] fix: ringmethod: the deviation of a bell was never
 understood

---
 apps/ringmethod/ringmethod.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index 7f6f659..c76956b 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -466,7 +466,7 @@ bool offset_opt::parse_meandev( string const& meandev, arg_parser const& ap,
 
   if ( comma != string::npos ) {
     try { 
-      stddev = lexical_cast<double>( meandev.substr(comma) );
+      stddev = lexical_cast<double>( meandev.substr(comma+1) );
     } catch ( bad_lexical_cast const& ) {
       ap.error( make_string() << "Invalid deviation: \"" 
                               << meandev.substr(comma) << "\"" );
-- 
2.43.0


From 9296f0da200934a0379987a7c3ce76d9c2fd6665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:59 +0000
Subject: [PATCH 168/193] fix: ringmethod: a bell struck before the row before
 had ended stopped the ringing for ever

---
 apps/ringmethod/ringmethod.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index c76956b..7763dce 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -335,10 +335,12 @@ void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
         r *= row(tower.bells());
     }
  
-    if (queued_bells.size() && queued_timestamp == t) {
+    // A bell may be due before the last of the row before it, in which case 
+    // it's struck as soon as it can be.
+    if (queued_bells.size() && queued_timestamp <= int(t)) {
       queued_timestamp = INT_MAX;
       for (int i=0; i < queued_bells.size(); ) {
-        if (queued_bells[i].second == t) {
+        if (queued_bells[i].second <= int(t)) {
           tower.strike( queued_bells[i].first );
           queued_bells.erase( queued_bells.begin() + i );
         } else {
-- 
2.43.0


From 8b886cf249642459d1f819006ee0bf73edd5b197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:23 +0000
Subject: [PATCH 169/193] fix: ringmethod: with no rows the program might write
 sound for ever

---
 apps/ringmethod/ringmethod.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index 7763dce..5ea01a8 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -305,7 +305,7 @@ void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
   //bool have_queued_bell = false;
   //bell queued_bell;
   //int queued_timestep;
-  int eof_timestep;
+  int eof_timestep = 0;
 
   size_t t = 0;
 
-- 
2.43.0


From 02522e86393543cf9d932dd20796efd491247fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:23 +0000
Subject: [PATCH 170/193] fix: ringmethod: the end of the sound was not written

---
 apps/ringmethod/ringmethod.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index 5ea01a8..a048f44 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -359,6 +359,9 @@ void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
       data_idx = 0;
     }
   }
+
+  // The rest of the last block
+  os.write( (char const*)data, 2*data_idx );
 }
 
 class double_opt : public option
-- 
2.43.0


From c963d9d4a05444b8e2d31ebd63d1157b1a4529aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:23 +0000
Subject: [PATCH 171/193] fix: ringmethod: loud sounds were outside of the
 range of a sample

---
 apps/ringmethod/ringmethod.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index a048f44..08e075b 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -351,7 +351,9 @@ void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
       }
     }
 
-    data[data_idx] = (int16_t)( tower.sample() * 1000 );
+    // Clip sounds that are too loud
+    double const sample = tower.sample() * 1000;
+    data[data_idx] = (int16_t)max( -32768.0, min( 32767.0, sample ) );
     ++data_idx;  ++t;
 
     if (data_idx == datasz) {
-- 
2.43.0


From 58a2e3095af9133786d1aa2ebd8ebbe09c759ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:23 +0000
Subject: [PATCH 172/193] fix: ringmethod: impossible options crashed the
 program

---
 apps/ringmethod/ringmethod.cpp | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index 08e075b..9382c18 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -511,7 +511,12 @@ bool offset_opt::process( string const& arg, arg_parser const& ap ) const
   }
   else {
     try { 
-      b = bell( lexical_cast<int>( arg.substr(0,eq) ) - 1 );
+      int const n = lexical_cast<int>( arg.substr(0,eq) );
+      if ( n < 1 || n > int(bell::MAX_BELLS) ) {
+        ap.error( make_string() << "Invalid bell number: \"" << n << "\"" );
+        return false;
+      }
+      b = bell( n - 1 );
     } catch ( bad_lexical_cast const& ) {
       ap.error( make_string() << "Invalid bell number: \"" 
                               << arg.substr(0,eq) << "\"" );
@@ -587,6 +592,33 @@ void arguments::bind( arg_parser& p )
 
 bool arguments::validate( arg_parser& ap )
 {
+  if ( bells <= 0 ) {
+    ap.error( "The number of bells must be positive" );
+    return false;
+  }
+
+  if ( bells > int(bell::MAX_BELLS) ) {
+    ap.error( make_string() << "The number of bells must be less than "
+              << bell::MAX_BELLS+1 );
+    return false;
+  }
+
+  if ( sample_rate <= 0 || peal_speed <= 0 || tenor_nominal <= 0 ) {
+    ap.error( "The sample rate, peal speed and frequency must be positive" );
+    return false;
+  }
+
+  if ( default_deviation < 0 ) {
+    ap.error( "The deviation must not be negative" );
+    return false;
+  }
+
+  // There must be at least two samples between each bell and the next
+  if ( peal_speed * 60 / 2500.0 / (bells*2+1) * sample_rate <= 2.0 ) {
+    ap.error( "The sample rate is too low to ring so fast" );
+    return false;
+  }
+
   for ( bell b=0; b<bells; ++b )
     if ( striking.find(b) == striking.end() ) 
       striking[b] = offset();
-- 
2.43.0


From 60d345e5962452ea618470e067cb16628791644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:36 +0000
Subject: [PATCH 173/193] fix: ringmethod: rows with too many bells crashed the
 program

---
 apps/ringmethod/ringmethod.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index 9382c18..512c352 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -17,8 +17,11 @@
 
 // $Id$
 
+#include <algorithm>
+#include <climits>
 #include <cmath>
 #include <ctime>
+#include <stdexcept>
 #include <stdint.h>
 #include <iostream>
 #include <cassert>
@@ -219,6 +222,7 @@ private:
   };
 
   void do_ring( shared_pointer<row_reader_base> const& r, ostream& os );
+  void check_bells( row const& r ) const;
 
 public:
   void header( ostream& os );
@@ -291,10 +295,18 @@ void row_player::header( ostream& os )
   os.write( buf, 44 );
 }
 
+void row_player::check_bells( row const& r ) const
+{
+  if ( r.bells() > tower.bells() )
+    throw runtime_error( make_string() << "The row '" << r << "' has more than "
+                                       << tower.bells() << " bells" );
+}
+
 void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
                           ostream& os )
 {
   row r = rr->next();  
+  check_bells(r);
   if (r.bells() < tower.bells()) r *= row(tower.bells());
 
   size_t bell_idx = 0, row_idx = 0;
@@ -329,6 +341,7 @@ void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
 
       row_idx++; // get next row
       r = rr->next();  
+      check_bells(r);
       if (r.bells() == 0) 
         eof_timestep = ts + 5 * tower.sample_rate();
       else if (r.bells() < tower.bells()) 
@@ -664,6 +677,13 @@ int main(int argc, char* argv[])
   tower_sounds tower( args.tenor_nominal, args.bells, args.sample_rate ); 
   row_player player( tower, args.peal_speed, args.hs_lead, args.striking );
   player.header( cout );
-  player.ring( istream_iterator<row>(cin), istream_iterator<row>(), cout );
+  try {
+    player.ring( istream_iterator<row>(cin), istream_iterator<row>(), cout );
+  }
+  catch ( exception const& e ) {
+    cout << flush;
+    cerr << "ringmethod: " << e.what() << endl;
+    return 1;
+  }
 }
 
-- 
2.43.0


From 445f0411864372eeedb260dd30bd8a0c3ea3b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:40 +0000
Subject: [PATCH 174/193] fix: ringmethod: rounds were rung when there were no
 rows

---
 apps/ringmethod/ringmethod.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index 512c352..af12712 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -307,7 +307,7 @@ void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
 {
   row r = rr->next();  
   check_bells(r);
-  if (r.bells() < tower.bells()) r *= row(tower.bells());
+  if (r.bells() && r.bells() < tower.bells()) r *= row(tower.bells());
 
   size_t bell_idx = 0, row_idx = 0;
 
-- 
2.43.0


From d863a638bff009a16cbfae325c18f3faf6fad3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:55 +0000
Subject: [PATCH 175/193] fix: splices: sizes of groups were printed as errors

---
 apps/splices/splices.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index 9594008..2eb3b27 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -553,8 +553,6 @@ string splices::test_splice( method const& a, vector<row> const& b,
   if ( args.only_n_leads != -1 && sg.size() != args.only_n_leads * 2 )
     return string();
 
-cerr << "Got " << sg.size() << endl;
-
   string desc( describe_splice(sg) );
   if ( !args.group_splices /* && !args.filter_mode */ ) {
     cout << name_or_pn(args, a);
-- 
2.43.0


From 509db3fe0cb2b5899bfe820acbe2068bd8a1bee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:55 +0000
Subject: [PATCH 176/193] fix: splices: as a filter, descriptions of splices
 were printed among the methods

---
 apps/splices/splices.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index 2eb3b27..4a0d880 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -554,7 +554,7 @@ string splices::test_splice( method const& a, vector<row> const& b,
     return string();
 
   string desc( describe_splice(sg) );
-  if ( !args.group_splices /* && !args.filter_mode */ ) {
+  if ( !args.group_splices && !args.filter_mode ) {
     cout << name_or_pn(args, a);
     if ( args.meth.size() != 1 ) 
       cout << " / " << b_name;
-- 
2.43.0


From bf3c991945b991f2bc72ba27118c5632c38bc12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:39 +0000
Subject: [PATCH 177/193] fix: splices: -g with -l lost the brackets around
 lead splices

---
 apps/splices/splices.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index 4a0d880..387a9c8 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -401,7 +401,8 @@ void splices::print_splice_groups() const
   {
     // We've got spurious lead splice entries here to enable bracketing
     // of lead splices within other types of splice.
-    if ( args.only_n_leads > 1 && i->first == "1-lead" )
+    if ( args.only_n_leads != -1 && args.only_n_leads != 1 
+         && i->first == "1-lead" )
       continue;
 
     // If we're running with -ge, we want to group methods by their lead-end.
@@ -547,10 +548,7 @@ string splices::test_splice( method const& a, vector<row> const& b,
 
   if ( args.only_n_leads != -1 && sg.size() != args.only_n_leads * 2 &&
        // Need to store lead splices if we're to group them
-       ( !args.group_splices && !args.filter_mode || sg.size() != 2 ) )
-    return string();
-
-  if ( args.only_n_leads != -1 && sg.size() != args.only_n_leads * 2 )
+       ( !args.group_splices || sg.size() != 2 ) )
     return string();
 
   string desc( describe_splice(sg) );
-- 
2.43.0


From 6348bd32999af57852129fd338e984d311365a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:39 +0000
Subject: [PATCH 178/193] fix: spliceplan: the help was that of another program

---
 apps/spliceplan/spliceplan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/spliceplan/spliceplan.cpp b/apps/spliceplan/spliceplan.cpp
index ec9700c..27818ef 100644
--- a/apps/spliceplan/spliceplan.cpp
+++ b/apps/spliceplan/spliceplan.cpp
@@ -252,7 +252,7 @@ private:
 
 arguments::arguments( int argc, char const *argv[] )
 {
-  arg_parser ap( argv[0], "musgrep -- grep rows for music", "OPTIONS" );
+  arg_parser ap( argv[0], "spliceplan -- search for spliced extents", "OPTIONS" );
   bind( ap );
 
   if ( !ap.parse(argc, argv) )
-- 
2.43.0


From 9e47362256e3f0c5ec6a96b97d780485556040f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:11 +0000
Subject: [PATCH 179/193] fix: spliceplan: methods that cannot be read or have
 no lead end crashed the program

---
 apps/spliceplan/spliceplan.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/apps/spliceplan/spliceplan.cpp b/apps/spliceplan/spliceplan.cpp
index 27818ef..6fdfd17 100644
--- a/apps/spliceplan/spliceplan.cpp
+++ b/apps/spliceplan/spliceplan.cpp
@@ -82,7 +82,21 @@ method_list::method_list( library const& lib, sqmulttab const& mt )
   for ( library::const_iterator i(lib.begin()), e(lib.end()); i!=e; ++i ) {
     method m( i->meth() ); 
     m.name( i->get_facet<litelib::payload>() ); 
-    methinfo mi = { m, mt.find( m.lh() * m.back() ) };
+
+    // The lead end must be one that could start a lead, and not the lead head
+    if ( m.empty() )
+      throw runtime_error( "A method has no changes" );
+
+    row const le( m.lh() * m.back() );
+    sqmulttab::row_iterator ri( mt.begin_rows() ), re( mt.end_rows() );
+    while ( ri != re && mt.multtab::find(*ri) != le ) 
+      ++ri;
+    if ( ri == re || le.isrounds() )
+      throw runtime_error( make_string() << "The lead end of "
+        << m.format( method::M_DASH | method::M_SYMMETRY ) 
+        << " is not another lead head" );
+
+    methinfo mi = { m, mt.find(le) };
     data.push_back( mi );
   }
 }
@@ -875,7 +889,14 @@ int main(int argc, char const* argv[] )
   const bool search = true;
 
   if (search)
-    searcher(args).recurse();
+    try {
+      searcher(args).recurse();
+    }
+    catch ( exception const& e ) {
+      cout << flush;
+      cerr << "spliceplan: " << e.what() << endl;
+      return 1;
+    }
   else {
     analyser a(args);
     for ( int i=1; i<argc; ++i )
-- 
2.43.0


From b8289be80f7e1d1d5c1885dcdffec6ee8bc00643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:27 +0000
Subject: [PATCH 180/193] fix: spliceplan: leads that were false against
 themselves in other parts were used

---
 apps/spliceplan/spliceplan.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/apps/spliceplan/spliceplan.cpp b/apps/spliceplan/spliceplan.cpp
index 6fdfd17..7779f13 100644
--- a/apps/spliceplan/spliceplan.cpp
+++ b/apps/spliceplan/spliceplan.cpp
@@ -469,6 +469,18 @@ bool searcher::is_possible( row_t const& lh,
   if ( le != lh && free_lhs.find(le) == free_lhs.end() )
     return false;
 
+  // Is the lead true against itself in other parts?  It may be the same 
+  // lead, rung backwards.
+  for ( vector<row_t>::const_iterator
+          pi=pends.begin(), pe=pends.end(); pi!=pe; ++pi ) {
+    if ( pi->isrounds() || *pi * lh == le ) continue;
+    falseness_tab const& ft = false_data.find( make_pair(m, m) )->second;
+    for ( falseness_tab::const_iterator fi=ft.begin(), fe=ft.end(); 
+          fi!=fe; ++fi ) 
+      if ( lh * *fi == *pi * lh )
+        return false;
+  }
+
   // Is the lead true agaisnt all the methods currently chosen?
   for ( spliced_plan::const_iterator ci = comp.begin(), ce = comp.end(); 
         ci != ce; ++ci ) 
-- 
2.43.0


From 433cc01e1cf9fc1c6ee7acf6f783e0b93ae9dacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:27 +0000
Subject: [PATCH 181/193] fix: splices: input that cannot be read crashed the
 program, or was taken as empty

---
 apps/splices/splices.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index 387a9c8..0e1f4d4 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -635,12 +635,8 @@ void splices::find_splices( library const& lib )
     print_splice_groups();
 }
 
-int main( int argc, char *argv[] )
+static void run( arguments& args )
 {
-  bell::set_symbols_from_env();
-
-  arguments args(argc, argv);
-
   splices spl( args );
 
   if ( args.read_rows ) 
@@ -648,6 +644,7 @@ int main( int argc, char *argv[] )
 
   else if ( !args.rows_file.empty() ) {
     ifstream in(args.rows_file);
+    if (!in) throw runtime_error( "Unable to read rows from " + args.rows_file );
     args.rows.assign( istream_iterator<row>(in), istream_iterator<row>() );
   }
 
@@ -660,3 +657,19 @@ int main( int argc, char *argv[] )
     spl.find_splices( in );
   }
 }
+
+int main( int argc, char *argv[] )
+{
+  bell::set_symbols_from_env();
+
+  arguments args(argc, argv);
+
+  try {
+    run( args );
+  }
+  catch ( exception const& e ) {
+    cout << flush;
+    cerr << "splices: " << e.what() << endl;
+    return 1;
+  }
+}
-- 
2.43.0


From 73c81c0a96fd995b055c9d33db0abf0a47634dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:38 +0000
Subject: [PATCH 182/193] fix: spliceplan: part ends that cannot be lead heads
 crashed the program

---
 apps/spliceplan/spliceplan.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/apps/spliceplan/spliceplan.cpp b/apps/spliceplan/spliceplan.cpp
index 7779f13..3e99d0e 100644
--- a/apps/spliceplan/spliceplan.cpp
+++ b/apps/spliceplan/spliceplan.cpp
@@ -355,7 +355,17 @@ bool arguments::generate_pends( arg_parser& ap )
   for ( vector<string>::const_iterator
           i( pend_strs.begin() ), e( pend_strs.end() ); i != e; ++i )
     {
-      row const g( row(bells) * row(*i) );
+      row g;
+      try {
+        g = row(bells) * row(*i);
+      } catch ( exception const& e ) {
+        ap.error( make_string() << "Invalid part end: " << e.what() );
+        return false;
+      }
+      if ( g.bells() != bells || g[0] != 0 || in_course && g.sign() == -1 ) {
+        ap.error( make_string() << "The part end is not a lead head: " << *i );
+        return false;
+      }
       gens.push_back(g);
     }
 
-- 
2.43.0


From b2e748fd1b9f4a59ee6c26dbe35a84ccc089ba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:31 +0000
Subject: [PATCH 183/193] fix: splices: -g -e read past the ends of methods of
 different lengths

---
 apps/splices/splices.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index 0e1f4d4..2198fa1 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -308,7 +308,8 @@ bool splices::is_just_le_vars( set<method> const& s ) const
   if (s.size() < 2) return true;
   set<method>::const_iterator first=s.begin(), i=first, e=s.end();
   for (++i; i!=e; ++i) 
-    if ( !equal( i->begin(), i->end()-1, first->begin() ) )
+    if ( i->size() != first->size() ||
+         !equal( i->begin(), i->end()-1, first->begin() ) )
       return false;
   return true;
 }
-- 
2.43.0


From 5b9909e23ef1ab5c3e2cad10fb8c81c4c819ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:43 +0000
Subject: [PATCH 184/193] fix: splices: methods with no changes crashed the
 program

---
 apps/splices/splices.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index 2198fa1..cdddf2b 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -208,6 +208,11 @@ bool arguments::validate( arg_parser& ap )
                   << e.what() );
         return false;
       }
+
+      if ( meth.back().empty() ) {
+        ap.error( "Invalid method place notation: no changes" );
+        return false;
+      }
     }
 
   if ( null_splices && only_n_leads != -1 ) 
@@ -606,6 +611,7 @@ void splices::find_splices( library const& lib )
   for ( const_iterator i=lib.begin(), e=lib.end(); i!=e; ++i ) 
   {
     method m( get_method(*i) );
+    if ( m.empty() ) throw runtime_error( "A method has no changes" );
 
     bool filter_ok = false;
 
-- 
2.43.0


From e1d3de6c67d7d633231aeb73090b26580b723ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:41 +0000
Subject: [PATCH 185/193] fix: splices: the group of methods with no shared
 rows was printed as an empty row

---
 apps/splices/splices.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index cdddf2b..d245a2e 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -544,6 +544,7 @@ string splices::test_splice( method const& a, vector<row> const& b,
   }
 
   group sg( ft.generate_group() );
+  if ( sg.bells() == 0 ) sg = group( row( args.bells ) ); // No shared rows
   if ( args.print_group ) {
     copy( sg.begin(), sg.end(), ostream_iterator<row>(cout, "\n") );
     return string();
-- 
2.43.0


From 47bc0cb4a26efcd1482e8404888e0de8811ffa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:12 +0000
Subject: [PATCH 186/193] fix: litelib: a library was no longer good once it
 had been read, so that it could not be listed

---
 ringing/litelib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 4e7c016..21b351c 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -59,7 +59,7 @@ public:
 private:
   void skip_bom();
 
-  virtual bool good(void) const { return bool(f); }
+  virtual bool good(void) const { return ok; }
 
 private:
   int b;
-- 
2.43.0


From 5a2be88dd948845be41cee3fde2b701f46d7b2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:01 +0000
Subject: [PATCH 187/193] fix: methsearch: with regular lead heads asked for,
 other restrictions on the lead head were ignored

---
 apps/methsearch/search.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 912b7ed..dbf75d4 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -1397,25 +1397,22 @@ bool searcher::is_acceptable_leadhead( const row &lh )
       }
     }
 
-  if ( args.require_pbles ) {
-    if ( lh.ispblh(args.hunt_bells) )
-      return true;
-  }
-  else if ( args.require_cyclic_les ) {
-    if ( is_cyclic_le(lh, args.hunt_bells) )
-      return true;
-  }
-  else if ( args.any_regular_le ) {
+  if ( args.require_pbles && !lh.ispblh(args.hunt_bells) )
+    return false;
+
+  if ( args.require_cyclic_les && !is_cyclic_le(lh, args.hunt_bells) )
+    return false;
+
+  if ( args.any_regular_le ) {
     unsigned h = 0;
     for (unsigned i=0; i < bells; ++i)
       if (lh[i] == i) ++h;
       else break;
-    if ( lh.ispblh(h) )
-      return true;
+    if ( !lh.ispblh(h) )
+      return false;
   }
-  else return true;
 
-  return false;
+  return true;
 }
 
 void searcher::general_recurse()
-- 
2.43.0


From 9f7605e491a438bf63bbd082e19f31ec312c1dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:35 +0000
Subject: [PATCH 188/193] fix: methsearch: a mask could take the hunt bells off
 the path asked for

---
 apps/methsearch/mask.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 6fe6496..281c2e4 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -631,16 +631,21 @@ void merge_changes( const arguments& args, vector<change>& result,
 
   // If we're leading or lying, then handle that.
   // XXX:  This doesn't work when number of hunts > 1/2 number of bells
+  bool leading = false, lying = false;
   if ( posn.first == args.treble_front-1
-       && i % (2 * args.treble_dodges + 2) == 2 * args.treble_dodges + 1 ) 
+       && i % (2 * args.treble_dodges + 2) == 2 * args.treble_dodges + 1 ) {
     posn.first++;
+    leading = true;
+  }
 
   if ( posn.second == args.treble_back-1 
        && (    (args.treble_back - args.treble_front) % 2 == 1
             && i % (2 * args.treble_dodges + 2) == 2 * args.treble_dodges + 1 
             || (args.treble_back - args.treble_front) % 2 == 0
-            && i % 2 == 0 ) ) 
+            && i % 2 == 0 ) ) {
     posn.second--;
+    lying = true;
+  }
 
   // POSN now contains the position of the lowest and highest moving hunts
   DEBUG( "At position " << i << " hunts in range " 
@@ -652,6 +657,16 @@ void merge_changes( const arguments& args, vector<change>& result,
       DEBUG( "Merging " << below[ib] << " and " << above[ia] << " gives "
                << ch );
 
+      // A change given in the mask might not be one in which the hunts can
+      // follow their paths
+      bool follows = ( !leading || ch.findplace( args.treble_front-1 ) )
+        && ( !lying || ch.findplace( args.treble_back-1 ) );
+      for ( int j=posn.first; j < posn.second && j < args.bells-1; j += 2 )
+        if ( !ch.findswap(j) ) 
+          follows = false;
+      if ( !follows )
+        continue;
+
       // Handle -Fx
       if ( args.true_trivial && ch.count_places() == args.bells )
         continue;
-- 
2.43.0


From cf13bad5537812f6c4a010e7f8306d50f3cd87e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:14 +0000
Subject: [PATCH 189/193] fix: lead head codes and falseness groups were wrong
 when other symbols are used for bells

---
 ringing/falseness.cpp | 23 ++++++++++++++++-------
 ringing/method.cpp    |  6 +++---
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/ringing/falseness.cpp b/ringing/falseness.cpp
index 745f4cf..584b00e 100644
--- a/ringing/falseness.cpp
+++ b/ringing/falseness.cpp
@@ -231,6 +231,15 @@ false_courses::false_courses( const method &m, int flags )
 
 RINGING_START_ANON_NAMESPACE
 
+// Reads a row written with the usual symbols, whatever ones are in use
+static row numbered_row( char const* r )
+{
+  vector<bell> v;
+  for ( ; *r; ++r )
+    v.push_back( bell( *r - '1' ) );
+  return row(v);
+}
+
 static const struct init_data_t {
   const char *r, *s;
 } init_data[] = {
@@ -254,11 +263,11 @@ static shared_pointer< map<row, string> > make_table(int bells)
   for ( const init_data_t* p=init_data; p->r; ++p )
     {
       if ( bells == 8 )
-	(*table)[ rounds * p->r ] = string( p->s, 1 );
+	(*table)[ rounds * numbered_row( p->r ) ] = string( p->s, 1 );
       else if ( bells == 10 && strcmp( p->s, "D1" ) == 0 )
-	(*table)[ rounds * p->r ] = "B1";
+	(*table)[ rounds * numbered_row( p->r ) ] = "B1";
       else
-	(*table)[ rounds * p->r ] = p->s;
+	(*table)[ rounds * numbered_row( p->r ) ] = p->s;
     }
 
   return table;
@@ -276,11 +285,11 @@ string lookup_one_symbol( map<row, string> const& table, int b, row r )
   // This is a hack to get X, Y and Z falseness to work on 8 bells
   if (b == 8) {
     row rounds(b);
-    if ( r == rounds * "17623548" )
+    if ( r == rounds * numbered_row( "17623548" ) )
       return string( "X" );
-    else if ( r == rounds * "17645328" )
+    else if ( r == rounds * numbered_row( "17645328" ) )
       return string( "Y" );
-    else if ( r == rounds * "17632458" )
+    else if ( r == rounds * numbered_row( "17632458" ) )
       return string( "Z" );
   }
 
@@ -340,7 +349,7 @@ string false_courses::lookup_symbol( row const& r )
   const size_t b = r.bells();
 
   row const pblh( row::pblh(b) );
-  row lhc; lhc *= change(b, "12"); // either 12 or 1N are fine
+  row lhc; lhc *= change(b, "{1}{2}"); // either 12 or 1N are fine
 
   group g( pblh, lhc );
 
diff --git a/ringing/method.cpp b/ringing/method.cpp
index 0399e7a..0907eca 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -479,14 +479,14 @@ char *method::lhcode(void) const
   if(lhr[1] == 1) {		// Two hunt bells
     if((*this)[0] == change(bells(), "X"))
       lhplace = 1;
-    else if((*this)[0] == change(bells(), "3"))
+    else if((*this)[0] == change(bells(), "{3}"))
       lhplace = 2;
     o = bells()-2;		// Order of the lead head
     n = o - n;
   } else {			// One hunt bell
-    if((*this)[length()-1] == change(bells(), "1"))
+    if((*this)[length()-1] == change(bells(), "{1}"))
       lhplace = 1;
-    else if((*this)[length()-1] == change(bells(), "12"))
+    else if((*this)[length()-1] == change(bells(), "{1}{2}"))
       lhplace = 2;
     o = bells()-1;
   }
-- 
2.43.0


From 614f1bac3da4133653505f0c856bc063e2f9d76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:14 +0000
Subject: [PATCH 190/193] fix: methsearch: restricted lead ends and old lead
 head codes were wrong when other symbols are used for bells

---
 apps/methsearch/methodutils.cpp | 89 ++++++++++++++++++---------------
 apps/methsearch/search.cpp      | 10 ++--
 2 files changed, 55 insertions(+), 44 deletions(-)

diff --git a/apps/methsearch/methodutils.cpp b/apps/methsearch/methodutils.cpp
index 7c099cb..f28c75e 100644
--- a/apps/methsearch/methodutils.cpp
+++ b/apps/methsearch/methodutils.cpp
@@ -283,53 +283,64 @@ bool compare_changes( change const& a, change const& b )
 
 RINGING_START_ANON_NAMESPACE
 
+// Is this the row with this number of each bell?  (The symbols used for bells 
+// may be different.)
+static bool is_row( row const& r, char const* numbers )
+{
+  for ( int i = 0; i < r.bells(); ++i )
+    if ( r[i] != numbers[i] - '1' )
+      return false;
+
+  return true;
+}
+
 static char const* old_lhcode_6( bool unicode, method const& m )
 {
   row const lh( m.lh() );
-  change const c12( m.bells(), "12" );
+  change const c12( m.bells(), "{1}{2}" );
 
   bool const seconds( m.back() == c12 );
 
   // Only handle seconds and sixth place methods
-  if ( !seconds && m.back() != change( m.bells(), "1" ) ) {
-    if ( m.back() != change(m.bells(), "14") ) return "?";
+  if ( !seconds && m.back() != change( m.bells(), "{1}" ) ) {
+    if ( m.back() != change(m.bells(), "{1}{4}") ) return "?";
 
-    if ( lh == "145362" ) return "X";
-    if ( lh == "162534" ) return "Y";
+    if ( is_row( lh, "145362" ) ) return "X";
+    if ( is_row( lh, "162534" ) ) return "Y";
 
-    if ( unicode && lh == "136524" ) return "\xCE\xBC"; // mu
-    if ( unicode && lh == "152643" ) return "\xCE\xB8"; // theta
-    if ( unicode && lh == "164235" ) return "\xCE\xB4"; // delta
-    if ( unicode && lh == "146325" ) return "\xCE\xA8"; // Psi
-    if ( unicode && lh == "154263" ) return "\xCE\xA3"; // Sigma
-    if ( unicode && lh == "135642" ) return "\xCE\xBB"; // lambda
+    if ( unicode && is_row( lh, "136524" ) ) return "\xCE\xBC"; // mu
+    if ( unicode && is_row( lh, "152643" ) ) return "\xCE\xB8"; // theta
+    if ( unicode && is_row( lh, "164235" ) ) return "\xCE\xB4"; // delta
+    if ( unicode && is_row( lh, "146325" ) ) return "\xCE\xA8"; // Psi
+    if ( unicode && is_row( lh, "154263" ) ) return "\xCE\xA3"; // Sigma
+    if ( unicode && is_row( lh, "135642" ) ) return "\xCE\xBB"; // lambda
 
     return "?";
   }
 
   switch (lh[1]) {
     case 2:
-      if ( lh == "135264" ) return seconds ? "G" : "L";
-      if ( lh == "136245" ) return seconds ? "Q" : "?";
-      if ( lh == "134625" ) return seconds ? "?" : "W";
+      if ( is_row( lh, "135264" ) ) return seconds ? "G" : "L";
+      if ( is_row( lh, "136245" ) ) return seconds ? "Q" : "?";
+      if ( is_row( lh, "134625" ) ) return seconds ? "?" : "W";
       break;
       
     case 3:
-      if ( lh == "142635" ) return seconds ? "K" : "O";
-      if ( lh == "142563" ) return seconds ? "P" : "?";
-      if ( lh == "146532" ) return seconds ? "?" : "U";
+      if ( is_row( lh, "142635" ) ) return seconds ? "K" : "O";
+      if ( is_row( lh, "142563" ) ) return seconds ? "P" : "?";
+      if ( is_row( lh, "146532" ) ) return seconds ? "?" : "U";
       break;
       
     case 4:
-      if ( lh == "156342" ) return seconds ? "H" : "M";
-      if ( lh == "154632" ) return seconds ? "S" : "?";
-      if ( lh == "152364" ) return seconds ? "?" : "T";
+      if ( is_row( lh, "156342" ) ) return seconds ? "H" : "M";
+      if ( is_row( lh, "154632" ) ) return seconds ? "S" : "?";
+      if ( is_row( lh, "152364" ) ) return seconds ? "?" : "T";
       break;
       
     case 5:
-      if ( lh == "164523" ) return seconds ? "J" : "N";
-      if ( lh == "165324" ) return seconds ? "R" : "?";
-      if ( lh == "165243" ) return seconds ? "?" : "V";
+      if ( is_row( lh, "164523" ) ) return seconds ? "J" : "N";
+      if ( is_row( lh, "165324" ) ) return seconds ? "R" : "?";
+      if ( is_row( lh, "165243" ) ) return seconds ? "?" : "V";
       break;
     }
 
@@ -339,8 +350,8 @@ static char const* old_lhcode_6( bool unicode, method const& m )
 static char const* old_lhcode_5( method const& m )
 {
   row const lh( m.lh() );
-  change const c1(m.bells(), "1"),   c2(m.bells(), "12"), 
-               c3(m.bells(), "123"), c4(m.bells(), "14");
+  change const c1(m.bells(), "{1}"),   c2(m.bells(), "{1}{2}"), 
+               c3(m.bells(), "{1}{2}{3}"), c4(m.bells(), "{1}{4}");
 
   bool const b1(m.back() == c1), b2(m.back() == c2), 
              b3(m.back() == c3), b4(m.back() == c4);
@@ -350,29 +361,29 @@ static char const* old_lhcode_5( method const& m )
 
   switch (lh[1]) {
     case 1:
-      if ( lh == "12534" ) return b2 ? "G" : b3 ? "T" : "?";
-      if ( lh == "12453" ) return b2 ? "K" : b3 ? "S" : "?";
+      if ( is_row( lh, "12534" ) ) return b2 ? "G" : b3 ? "T" : "?";
+      if ( is_row( lh, "12453" ) ) return b2 ? "K" : b3 ? "S" : "?";
       break;
  
     case 2:
-      if ( lh == "13524" ) return b2 ? "A" : b1 ? "C" : "?";
-      if ( lh == "13542" ) return b4 ? "Z" : "?";
-      if ( lh == "13425" ) return b2 ? "H" : b4 ? "X" : "?";
-      if ( lh == "13452" ) return b1 ? "F" : "?";
+      if ( is_row( lh, "13524" ) ) return b2 ? "A" : b1 ? "C" : "?";
+      if ( is_row( lh, "13542" ) ) return b4 ? "Z" : "?";
+      if ( is_row( lh, "13425" ) ) return b2 ? "H" : b4 ? "X" : "?";
+      if ( is_row( lh, "13452" ) ) return b1 ? "F" : "?";
       break;
  
     case 3:
-      if ( lh == "14253" ) return b2 ? "B" : b1 ? "D" : "?";
-      if ( lh == "14235" ) return b2 ? "J" : b4 ? "W" : "?";
-      if ( lh == "14352" ) return b3 ? "U" : "?";
-      if ( lh == "14532" ) return b3 ? "R" : b4 ? "N" : "?";
+      if ( is_row( lh, "14253" ) ) return b2 ? "B" : b1 ? "D" : "?";
+      if ( is_row( lh, "14235" ) ) return b2 ? "J" : b4 ? "W" : "?";
+      if ( is_row( lh, "14352" ) ) return b3 ? "U" : "?";
+      if ( is_row( lh, "14532" ) ) return b3 ? "R" : b4 ? "N" : "?";
       break;
 
     case 4:
-      if ( lh == "15234" ) return b1 ? "E" : "?";
-      if ( lh == "15243" ) return b4 ? "Y" : "?";
-      if ( lh == "15423" ) return b3 ? "Q" : b4 ? "M" : "?";
-      if ( lh == "15324" ) return b3 ? "V" : "?";
+      if ( is_row( lh, "15234" ) ) return b1 ? "E" : "?";
+      if ( is_row( lh, "15243" ) ) return b4 ? "Y" : "?";
+      if ( is_row( lh, "15423" ) ) return b3 ? "Q" : b4 ? "M" : "?";
+      if ( is_row( lh, "15324" ) ) return b3 ? "V" : "?";
       break;
     }
 
diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index dbf75d4..e709520 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -639,8 +639,8 @@ bool searcher::is_acceptable_method()
 
   // Calls back to this function, so pretty expensive
   if ( args.prefer_limited_le && !is_limited_le( m.back() ) &&
-       ( try_with_limited_le( change( bells, "1"  ) ) ||
-         try_with_limited_le( change( bells, "12" ) ) ) )
+       ( try_with_limited_le( change( bells, "{1}" ) ) ||
+         try_with_limited_le( change( bells, "{1}{2}" ) ) ) )
     return false;
 
   // Leave this one last as --requires does a fork and so is very expensive
@@ -860,10 +860,10 @@ bool searcher::try_halflead_change( const change &ch )
 
 bool searcher::is_limited_le( const change& ch )
 {
-  string pn("1");
-  pn += bell( args.hunt_bells ).to_char();
+  vector<bell> pl( 1, bell(0) );
+  pl.push_back( bell( args.hunt_bells ) );
   
-  if ( ch == change( bells, "1" ) || ch == change( bells, pn ) )
+  if ( ch == change( bells, "{1}" ) || ch == change( bells, pl ) )
     return true;
   else
     return false;
-- 
2.43.0


From 5cad2ed1f28431df24c9dd3e8e09bc8560867216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:14 +0000
Subject: [PATCH 191/193] fix: fextent: the bob assumed when no call is given
 depended on the symbols used for bells

---
 apps/fextent/fextent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 23eefb9..c82364a 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -250,7 +250,7 @@ bool arguments::generate_calls( arg_parser& ap )
 {
   // These are only warnings -- so don't return false
   if ( call_strs.empty() && linkage ) {
-    call_strs.push_back( "14" );
+    call_strs.push_back( "{1}{4}" );
     ap.error( "No calls specified -- assuming fourths place bobs");
   }
   else if ( !call_strs.empty() && !linkage ) {
-- 
2.43.0


From 156a93267c4b9c4ed11e14bcef6b6830715b4841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:14 +0000
Subject: [PATCH 192/193] fix: a row with the treble in lower case was taken to
 leave it out in row expressions

---
 apps/utils/row_calc.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index 85eb44f..367133f 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -723,9 +723,13 @@ row rc_parser::make_row( string const& s )
   } catch ( change::invalid const& ) {}
  
   // Allow treble to be omitted
-  if ((f & row_calc::allow_implicit_treble) 
-      && str.find( bell(0).to_char() ) == string::npos)
-    str = bell(0).to_char() + str;
+  if (f & row_calc::allow_implicit_treble) {
+    bool treble = false;
+    for ( char c : str )
+      if ( bell::is_symbol(c) && bell::read_char(c) == 0 )
+        treble = true;
+    if (!treble) str = bell(0).to_char() + str;
+  }
 
   row r( str );
   if (!(f & row_calc::allow_row_promotion) && r.bells() != bells)  
-- 
2.43.0


From aab800ef03b373d3b5cec892a71f831435ec3f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:14 +0000
Subject: [PATCH 193/193] fix: musgrep: as many bells as there are symbols for
 were refused

---
 apps/musgrep/musgrep.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/musgrep/musgrep.cpp b/apps/musgrep/musgrep.cpp
index 1ceabf3..b2411cf 100644
--- a/apps/musgrep/musgrep.cpp
+++ b/apps/musgrep/musgrep.cpp
@@ -136,10 +136,10 @@ bool arguments::validate( arg_parser& ap )
       return false;
     }
 
-  if ( bells >= int(bell::MAX_BELLS) )
+  if ( bells > int(bell::MAX_BELLS) )
     {
       ap.error( make_string() << "The number of bells must be less than "
-                << bell::MAX_BELLS );
+                << bell::MAX_BELLS+1 );
       return false;
     }
 
-- 
2.43.0

