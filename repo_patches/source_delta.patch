From 050978e679614567c6e6ee74fcf6ee7c848637fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 001/174] fix: conjugator of rows on more than 33 bells

Bells without a symbol all print as '*' in row::cycles(), so building the
conjugator from that text threw row::invalid.  Work on the bells instead.
---
 ringing/row.cpp | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index 61440fb..deaff28 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -626,45 +626,53 @@ row_block& row_block::recalculate(int start)
 
 RINGING_START_ANON_NAMESPACE
 
+// The cycles are kept as bells rather than as text because row::cycles()
+// cannot distinguish bells which have no symbol of their own.
 struct cycle_cmp {
-  bool operator()( string const& x, string const& y ) const { 
+  bool operator()( vector<bell> const& x, vector<bell> const& y ) const { 
     return x.size() < y.size();
   }
 };
 
 struct cycle_eq {
-  bool operator()( string const& x, string const& y ) const { 
+  bool operator()( vector<bell> const& x, vector<bell> const& y ) const { 
     return x.size() == y.size();
   }
 };
 
-vector<string> conjugacy_class_vector( row const& r )
+vector< vector<bell> > conjugacy_class_vector( row const& r )
 {
-  string c = r.cycles();
-  vector<string> v;  v.reserve( c.size() - r.bells() + 1 );
+  vector< vector<bell> > v;
+  vector<bool> done( r.bells(), false );
 
-  size_t i = 0;
-  for ( size_t j; (j = c.find(',', i)) != string::npos; i=j+1)
-    v.push_back( c.substr(i, j-i ) );
-  v.push_back( c.substr(i, c.size()-i) );
+  for ( int i = 0; i < r.bells(); ++i ) {
+    if ( done[i] ) continue;
+    v.push_back( vector<bell>() );
+    for ( int j = i; !done[j]; j = r[j] ) {
+      v.back().push_back(j);
+      done[j] = true;
+    }
+  }
 
   sort( v.begin(), v.end(), cycle_cmp() );
   return v;
 }
 
-bool are_conjugate_impl( vector<string> const& xc, vector<string> const& yc )
+bool are_conjugate_impl( vector< vector<bell> > const& xc, 
+                         vector< vector<bell> > const& yc )
 {
   return xc.size() == yc.size() && 
     equal( xc.begin(), xc.end(), yc.begin(), cycle_eq() );
 }
 
-row cycles_as_row( vector<string> const& rc )
+row cycles_as_row( vector< vector<bell> > const& rc )
 {
-  string s;
-  for ( vector<string>::const_iterator i=rc.begin(), e=rc.end(); i!=e; ++i )
-    s += *i;
+  vector<bell> v;
+  for ( vector< vector<bell> >::const_iterator i=rc.begin(), e=rc.end(); 
+        i!=e; ++i )
+    v.insert( v.end(), i->begin(), i->end() );
 
-  return row(s);
+  return row(v);
 }
 
 RINGING_END_ANON_NAMESPACE
@@ -685,8 +693,8 @@ bool are_conjugate( row const& x, row const& y )
 //
 row conjugator( row const& x, row const& y )
 {
-  const vector<string> xc( conjugacy_class_vector(x) ),
-                       yc( conjugacy_class_vector(y) );
+  const vector< vector<bell> > xc( conjugacy_class_vector(x) ),
+                               yc( conjugacy_class_vector(y) );
 
   if ( are_conjugate_impl(xc, yc) )
     return cycles_as_row(xc) * cycles_as_row(yc).inverse();
-- 
2.43.0


From 6850ce0ffd3d50c91b863b37ef1ae0f7f8553d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 002/174] fix: the null character is not a bell symbol

strchr finds the terminator of the symbol string, so '\0' read as bell 34.
---
 ringing/bell.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/bell.cpp b/ringing/bell.cpp
index 1df6691..223a184 100644
--- a/ringing/bell.cpp
+++ b/ringing/bell.cpp
@@ -96,6 +96,7 @@ bell::invalid::invalid()
 bool bell::is_symbol(char c)
 {
   if ( bells_case_mapper ) c = bells_case_mapper(c);
+  if ( !c ) return false;  // strchr would find the terminator
   if ( strchr(symbols, c) ) return true;
 
   // I/1 and O/0 ambiguities:
@@ -113,7 +114,7 @@ bell bell::read_char(char c)
 {
   if ( bells_case_mapper ) c = bells_case_mapper(c);
   bell b;
-  if ( char const* cp = strchr(symbols, c) )
+  if ( char const* cp = c ? strchr(symbols, c) : NULL )
     b.x = cp - symbols;
   else {
     // I/1 and O/0 ambiguities:
-- 
2.43.0


From 8768c3130f3cc7902feaa59f112e636a7a2e6038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 003/174] fix: do not read I or 1 as a tenth when neither is a
 bell symbol

The cases fell through, so with a symbol set holding 0 but no 1, the
character 1 was read as the bell 0 although is_symbol refuses it.
---
 ringing/bell.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ringing/bell.cpp b/ringing/bell.cpp
index 223a184..2383406 100644
--- a/ringing/bell.cpp
+++ b/ringing/bell.cpp
@@ -119,10 +119,10 @@ bell bell::read_char(char c)
   else {
     // I/1 and O/0 ambiguities:
     switch (c) {
-      case 'I': if (is_symbol('1')) return read_char('1');
-      case '1': if (is_symbol('I')) return read_char('I');
-      case 'O': if (is_symbol('0')) return read_char('0');
-      case '0': if (is_symbol('O')) return read_char('O');
+      case 'I': if (is_symbol('1')) return read_char('1'); break;
+      case '1': if (is_symbol('I')) return read_char('I'); break;
+      case 'O': if (is_symbol('0')) return read_char('0'); break;
+      case '0': if (is_symbol('O')) return read_char('O'); break;
     }
 #if RINGING_USE_EXCEPTIONS
     throw invalid();
-- 
2.43.0


From 499100e8738fc38cba3b286f14a40aaef3064112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 004/174] fix: reject the bells {0} and {}

Bells count from one; these wrapped round to the 256th bell.
---
 ringing/bell.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/bell.cpp b/ringing/bell.cpp
index 2383406..d429747 100644
--- a/ringing/bell.cpp
+++ b/ringing/bell.cpp
@@ -145,7 +145,7 @@ bell bell::read_extended(char const* str, char const** endp)
   } else {
     unsigned long val = strtoul(++str, const_cast<char**&>(endp), 10);
     while (isspace(**endp)) ++*endp;
-    if ( *str == '-' || **endp != '}' ||
+    if ( *str == '-' || **endp != '}' || val == 0 ||
          RINGING_BELL_BITS < sizeof(unsigned long) * CHAR_BIT
          && val > (1ul<<RINGING_BELL_BITS) )
 #if RINGING_USE_EXCEPTIONS
@@ -179,7 +179,7 @@ RINGING_API istream& operator>>(istream& i, bell& b)
       else {
         i.get(); // drop the '{'
         unsigned long val;  i >> noskipws >> val;
-        if ( i.get() != '}' ||
+        if ( i.get() != '}' || val == 0 ||
              RINGING_BELL_BITS < sizeof(unsigned long) * CHAR_BIT
              && val > (1ul<<RINGING_BELL_BITS) )
 #if RINGING_USE_EXCEPTIONS
-- 
2.43.0


From 6db6a7182b37ae5ba8fe497b696fcc29938818aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 005/174] fix: reading a row that ends the stream succeeds

The second peek() at the end of the stream set failbit although the row
had been read.
---
 ringing/row.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index deaff28..656ad79 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -560,7 +560,8 @@ RINGING_API istream& operator>>(istream& i, row& r)
     vector<bell> bells;  
     bells.reserve(r.bells()); // The only hint we might have available
 
-    while ( i && ( bell::is_symbol( i.peek() ) || i.peek() == '{' ) ) {
+    // Peeking again after reaching the end of the stream would set failbit
+    for ( int c; i && ( c = i.peek(), bell::is_symbol(c) || c == '{' ); ) {
       bell b;  
       i >> noskipws >> b;
       bells.push_back(b);
-- 
2.43.0


From 077630d213bffe36ece4f9a7a6c0764d3a602ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 006/174] fix: change::swappair no longer reads past the last
 swap

---
 ringing/change.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/change.cpp b/ringing/change.cpp
index 4f4f170..cc1d3f4 100644
--- a/ringing/change.cpp
+++ b/ringing/change.cpp
@@ -180,7 +180,7 @@ bool change::swappair(bell which)
     if(*s == which - 1) { // The swap before it is there. Replace it
                           // with our new swap.
       *s++ = which;
-      if(*s == which + 1) // The swap after it is there too. Take it out.
+      if(s != swaps.end() && *s == which + 1) // The swap after it is there too. Take it out.
         swaps.erase(s);
       return true;
     }
-- 
2.43.0


From 3bd02db329847ae1e26ce72d4f387c176b2c8641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 007/174] fix: reading a bell in braces no longer looks past
 the end

read_bell_expr dereferenced the end iterator.
---
 ringing/place_notation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/place_notation.h b/ringing/place_notation.h
index 03d3c38..2fc89b1 100644
--- a/ringing/place_notation.h
+++ b/ringing/place_notation.h
@@ -97,7 +97,7 @@ ForwardIterator read_bell_expr(ForwardIterator first, ForwardIterator last) {
     for ( int depth = 0; first < last && !(*first == '}' && depth == 0);
           ++first ) {
       if (*first == '{') ++depth;
-      else if (*last == '}') --depth;
+      else if (*first == '}') --depth;
     }
     if ( first == last || *first != '}') throw bell::invalid();
     ++first;
-- 
2.43.0


From 09a33b0fd04b152938b91af224dfd195bb7655bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 008/174] fix: formatting an empty method without its lead head

The length underflowed.
---
 ringing/method.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index b3238ef..4c744b6 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -632,7 +632,8 @@ string method::format( int flags ) const
   } else {
     if (flags & M_PLUS) out += '+';
     do_compressed_section( out, *this, 0, 
-                           size() - ( (flags & M_OMIT_LH) ? 1 : 0 ),  flags );
+                           size() - ( (flags & M_OMIT_LH) && size() ? 1 : 0 ),
+                           flags );
   }
 
   return out;
-- 
2.43.0


From 167182faced4aff15ac25b4741ddf3a7e27933aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 009/174] fix: classifying a method reads no further than its
 lead head

methclass looked at the bell beyond the end of the lead head in every
method without a hunt bell, and lhcode at the third of none.
---
 ringing/method.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index 4c744b6..501f19e 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -304,13 +304,13 @@ int method::methclass(int year) const
 
   // Set hb to be the first hunt bell, or hb=n if there is none
   bell hb;
-  for (hb = 0; lhr[hb] != hb && hb < n; ++hb)
+  for (hb = 0; hb < n && lhr[hb] != hb; ++hb)
     ;
   
   // Set wb to be the size of the first set of working bells    
   int wb = 0;
   { int i;
-    for (i = 0; lhr[i] == i && i < n; ++i)
+    for (i = 0; i < n && lhr[i] == i; ++i)
       ;
     if (i < n) 
       wb = lhr.cycle_size(i);
@@ -464,7 +464,7 @@ char *method::lhcode(void) const
   int lhplace = 0;
 
   buff[0] = 'z'; buff[1] = '\0';
-  if(!isregular()) return buff;
+  if(bells() < 3 || !isregular()) return buff;
 
   // For a normal lead head code to be used, the method must be regular,
   // and have either one or two hunt bells, treble and 2.
-- 
2.43.0


From 73be78d6ca8b8f04a568a5bd79e21f5aa85d48ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 010/174] fix: bell symmetry about points in the second half
 lead

The opposite symmetry point was looked up beyond the end of the method,
and an empty method divided by zero.
---
 ringing/method.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index 501f19e..5464a03 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -213,6 +213,8 @@ bool method::is_palindromic_about(bell b, int i) const
 {
   const int n( size() );
 
+  if (n == 0) return true;
+
   // Trace path of bell, b, to the prospective symmetry point, i
   for ( int j=0; j < (i+1) % n; ++j )
     b *= (*this)[j%n];
@@ -232,7 +234,7 @@ bool method::is_palindromic_about(bell b, int i) const
   }
 
   // We're now at the other symmetry point.  Is there a place there too?
-  if(b * (*this)[i+(n%2==0 ? n/2 : n/2+1)] != b) 
+  if(b * (*this)[(i+(n%2==0 ? n/2 : n/2+1)) % n] != b) 
     return false;
 
   return true;
-- 
2.43.0


From 8dedb61fd8ab603c9165278871b14cd6a67f31a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 011/174] fix: method::hasdodges on an empty method divided by
 zero

---
 ringing/method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index 5464a03..9f9e910 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -274,7 +274,7 @@ bool method::hasdodges(bell b) const
   bell j2 = -1; // and its position before that
   // We need to search beyond the lead end in order to find points
   // at the lead head, as in Dusty Bob Minimus.
-  for (int i = 0, n = length(); i < n + 1; i++) {
+  for (int i = 0, n = length(); n && i < n + 1; i++) {
     j2 = j1; j1 = j;
     j *= (*this)[i % n];
     if(j == j2 && j != j1) return true;
-- 
2.43.0


From ee53da26bf694e4594c74c83f0ad3e2c14a8bc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 012/174] fix: method::maxblows gave -1 for a method that makes
 no places

---
 ringing/method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index 9f9e910..bee37f1 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -644,7 +644,7 @@ string method::format( int flags ) const
 // Counts the maximum number of consecutive blows in one place
 int method::maxblows(void) const
 {
-  int maxn = 0;
+  int maxn = 2;  // One blow in each place if no places are made
 
   for ( const_iterator b(begin()), i(b), e(end()); i != e; ++i )
     for ( int p(0); p < bells(); ++p )
-- 
2.43.0


From 91fc13f198ace1ccc0d8196e6fa0022d82c01198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 013/174] fix: method::set_untitled only took effect the first
 time

---
 ringing/method.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index bee37f1..84da6e0 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -106,7 +106,8 @@ const char *method::txt_double       = "Double";
 const char *method::txt_little       = "Little";
 
 void method::set_untitled(string const& str) {
-  static string str_untitled = str;
+  static string str_untitled;
+  str_untitled = str;
   txt_untitled = str_untitled.c_str();
 }
 
-- 
2.43.0


From 1a29751c4c45d3251e6b1d6ee345db10b2ceca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 014/174] fix: classifying a one-bell method looked for a
 second bell

---
 ringing/method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index 84da6e0..2ffdfe2 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -361,7 +361,7 @@ int method::methclass(int year) const
   if(isplain(hb)) {
     // Check for Slow Course methods.  These were abolished in the 
     // Framework for Method Ringing, v1.00, effective 1 July 2019.
-    if(year < 2019 && hb == 0 && lhr[1] == 1 && issym(1))
+    if(year < 2019 && hb == 0 && n > 1 && lhr[1] == 1 && issym(1))
       return cl | M_SLOW_COURSE;
     // Now see whether any of the working bells make any dodges
     for (int i = 1; i < bells(); i++)
-- 
2.43.0


From 590bbdf08bcdb494e924b896f542dae3593a4b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 015/174] fix: conjugating a group by a row on more bells

The elements grew but the group's number of bells did not.
---
 ringing/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/group.cpp b/ringing/group.cpp
index 4bf2630..bf984a2 100644
--- a/ringing/group.cpp
+++ b/ringing/group.cpp
@@ -217,7 +217,7 @@ group group::conjugate( const row& r ) const
 {
   group g;
 
-  g.b = b;
+  g.b = b < size_t(r.bells()) ? r.bells() : b;
   g.v.clear();  // Default constructor populates it with a single element
   g.v.reserve( v.size() );
 
-- 
2.43.0


From 580a956be422f962a5350e3ed0c55b2c6899adfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 016/174] fix: right coset labels of rows on other numbers of
 bells

The quick method wrote beyond the end of the label of a row on fewer
bells than the group, and left out the extra bells of one on more.
---
 ringing/group.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ringing/group.cpp b/ringing/group.cpp
index bf984a2..e5d19c1 100644
--- a/ringing/group.cpp
+++ b/ringing/group.cpp
@@ -277,14 +277,15 @@ row group::rcoset_label( row const& r ) const
   if ( size() >= 6 && is_direct_product_of_symmetric_groups( o, size() ) ) 
   {
     // Use an O(1) algorithm.
-    vector<bell> label( r.bells() );
+    row const rx( row(bells()) * r ); // r, on at least as many bells as *this
+    vector<bell> label( rx.begin(), rx.end() );
 
     for ( vector< vector<bell> >::const_iterator i=o.begin(), e=o.end(); 
             i != e; ++i ) {
       size_t n = i->size();
       vector<bell> v;
       for ( size_t j=0; j<n; ++j )
-        v.push_back( r.find( (*i)[j] ) );
+        v.push_back( rx.find( (*i)[j] ) );
 
       sort( v.begin(), v.end() );
       for ( size_t j=0; j<n; ++j ) {
-- 
2.43.0


From 02008f275093111f4137e2463a2d453f0dddfae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 017/174] fix: decrementing an end extent_iterator left it at
 the end

---
 ringing/extent.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/extent.cpp b/ringing/extent.cpp
index 5ae46dc..22aec8d 100644
--- a/ringing/extent.cpp
+++ b/ringing/extent.cpp
@@ -74,6 +74,7 @@ extent_iterator &extent_iterator::operator--()
     for ( unsigned i=nh; i<nw+nh; ++i ) v[i] = nw+nh-1 - i + nh;
     for ( unsigned i=nw+nh; i<nt; ++i ) v[i] = i;
     r.swap(v);
+    end_ = false;
   } 
   else {
     vector<bell> v; r.swap(v);
-- 
2.43.0


From 09a7f7c2ae27c58d09b94aab3f0a0c286210404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 018/174] fix: position_in_extent of a row without its tenors
 read beyond it

---
 ringing/extent.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/extent.cpp b/ringing/extent.cpp
index 22aec8d..4a549dd 100644
--- a/ringing/extent.cpp
+++ b/ringing/extent.cpp
@@ -105,10 +105,10 @@ position_in_extent( row const& r, unsigned nw, unsigned nh, unsigned nt )
 
   if (b > nt) 
     throw out_of_range( "Row has too many bells" );
-  for ( size_t i=0; i<nh; ++i )
+  for ( size_t i=0; i<nh && i<b; ++i )
     if ( r[i] != i )
       throw out_of_range( "Row does not have fixed trebles" );
-  for ( size_t i=nh+nw; i<nt; ++i )
+  for ( size_t i=nh+nw; i<nt && i<b; ++i )
     if ( r[i] != i )
       throw out_of_range( "Row does not have fixed tenors" );
 
-- 
2.43.0


From fc5037cefd36a628982bdc1f225394622cfa4858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 019/174] fix: hcf with zero divided by zero, and lcm
 overflowed early

---
 ringing/mathutils.cpp | 1 +
 ringing/mathutils.h   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/mathutils.cpp b/ringing/mathutils.cpp
index f06602a..366b36c 100644
--- a/ringing/mathutils.cpp
+++ b/ringing/mathutils.cpp
@@ -54,6 +54,7 @@ int hcf(int a, int b)
 {
   // Make sure we have a >= b
   if(a < b) RINGING_PREFIX_STD swap(a, b);
+  if(b == 0) return a;
 
   int r;
   do {
diff --git a/ringing/mathutils.h b/ringing/mathutils.h
index d240f44..fbf55d7 100644
--- a/ringing/mathutils.h
+++ b/ringing/mathutils.h
@@ -53,7 +53,7 @@ inline RINGING_API int lcm(int a, int b)
   // Check for a couple of quick cases
   if(a == 1) return b;
   if(b == 1) return a;
-  return a * b / hcf(a,b);
+  return a / hcf(a,b) * b;
 }
 
 RINGING_API unsigned factorial(unsigned n);
-- 
2.43.0


From 56b0f9daa36fe8dbb7c5cf44e4905f908e5e02c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 020/174] fix: factorials from 13 up, and so extents on 13 or
 more bells, overflowed

---
 ringing/mathutils.cpp | 4 ++--
 ringing/mathutils.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ringing/mathutils.cpp b/ringing/mathutils.cpp
index 366b36c..c42d18d 100644
--- a/ringing/mathutils.cpp
+++ b/ringing/mathutils.cpp
@@ -67,10 +67,10 @@ int hcf(int a, int b)
   return a;
 }
 
-unsigned factorial(unsigned n)
+size_t factorial(unsigned n)
 {
   if (!n) return 1;
-  unsigned f = n;
+  size_t f = n;
   while (--n)
     f *= n;
   return f;
diff --git a/ringing/mathutils.h b/ringing/mathutils.h
index fbf55d7..9661557 100644
--- a/ringing/mathutils.h
+++ b/ringing/mathutils.h
@@ -56,7 +56,7 @@ inline RINGING_API int lcm(int a, int b)
   return a / hcf(a,b) * b;
 }
 
-RINGING_API unsigned factorial(unsigned n);
+RINGING_API size_t factorial(unsigned n);
 RINGING_API unsigned fibonacci(unsigned n);
 
 // Uniformly distributed, 0 <= random_int(max) < max
-- 
2.43.0


From 83431702c052def9c5e41fe0b5ac5f9c2feeff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 021/174] fix: finding a row in a multtab of coset
 representatives

The row looked up was itself taken as the first candidate for the
representative of its class, although it need not be in the table when
there is a post group.
---
 ringing/multtab.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/multtab.cpp b/ringing/multtab.cpp
index f786637..a0cd900 100644
--- a/ringing/multtab.cpp
+++ b/ringing/multtab.cpp
@@ -90,13 +90,13 @@ row multtab::make_post_representative( const row& r ) const
 
 row multtab::make_representative( const row& r ) const
 {
-  row res(r);
+  row res;
 
   for ( group::const_iterator i( pends.begin() ), e( pends.end() ); 
         i != e; ++i )
     {
       row const x( make_post_representative( *i * r ) );
-      if ( x.bells() && x < res )
+      if ( x.bells() && (res.bells() == 0 || x < res) )
         res = x;
     }
 
-- 
2.43.0


From 16a6528cb5aee9c030049c452596da08d4d09563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 022/174] fix: half-lead falseness considered only a quarter of
 a lead

The rows of the half lead are selected when the row_block is made (here
and in the splices program); halving them again lost falseness.
---
 ringing/falseness.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ringing/falseness.cpp b/ringing/falseness.cpp
index 5a24bfd..5cfc1ca 100644
--- a/ringing/falseness.cpp
+++ b/ringing/falseness.cpp
@@ -75,9 +75,7 @@ void falseness_table::init( vector<row> const& m1, vector<row> const& m2 )
 
   set<row> fs;
 
-  vector<row>::const_iterator const
-    e1( flags & half_lead_only ?  m1.begin() + m1.size() / 2 : m1.end() ),
-    e2( flags & half_lead_only ?  m2.begin() + m2.size() / 2 : m2.end() );
+  vector<row>::const_iterator const e1( m1.end() ), e2( m2.end() );
 
   for ( vector<row>::const_iterator i1( m1.begin() ); i1 != e1; ++i1 )
     {
-- 
2.43.0


From 05b603c808b78db0746b884fbbc8566bc5615440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 023/174] fix: false_courses looped for ever when the tenor
 never gets home

A false lead of a method whose lead head has other than one cycle of
working bells can lie in a course without a course head.
---
 ringing/falseness.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ringing/falseness.cpp b/ringing/falseness.cpp
index 5cfc1ca..289fc97 100644
--- a/ringing/falseness.cpp
+++ b/ringing/falseness.cpp
@@ -176,9 +176,14 @@ public:
 	row c( lead * f );
 	lead *= fc.lh;
 	      
-	// Transpose to the course head
-	while ( c[ f.bells() - 1 ] != f.bells() - 1 ) 
-	  c *= fc.lh;
+	// Transpose to the course head, if the course has one
+	row const start( c );
+	do 
+	  if ( c[ f.bells() - 1 ] == f.bells() - 1 ) break;
+	while ( (c *= fc.lh) != start );
+
+	if ( c[ f.bells() - 1 ] != f.bells() - 1 )
+	  continue;
 	      
 	if ( ( fc.flags & in_course_only ) && c.sign() == -1 )
 	  continue;
-- 
2.43.0


From 9ac6fa76f7d163a8ab7b00e224b414182a7c2a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 024/174] fix: default falseness tables had uninitialised flags

---
 ringing/falseness.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/falseness.cpp b/ringing/falseness.cpp
index 289fc97..8ac7518 100644
--- a/ringing/falseness.cpp
+++ b/ringing/falseness.cpp
@@ -63,7 +63,7 @@ static bool are_tenors_together( const row &r, int working_bells )
 }
 
 falseness_table::falseness_table()
-  : t(1, row())
+  : t(1, row()), flags(0)
 {}
 
 void falseness_table::init( vector<row> const& m1, vector<row> const& m2 )
@@ -151,7 +151,7 @@ group falseness_table::generate_group() const
 }
 
 false_courses::false_courses()
-  : t(1, row())
+  : t(1, row()), flags(0)
 {}
 
 
-- 
2.43.0


From 358e3e1e6cc886e195debe96f99e827325ce3fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 025/174] fix: swapping falseness tables left their flags and
 lead heads behind

---
 ringing/falseness.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ringing/falseness.h b/ringing/falseness.h
index 304910c..7636b3b 100644
--- a/ringing/falseness.h
+++ b/ringing/falseness.h
@@ -74,7 +74,9 @@ public:
   falseness_table( const vector<row> &a, const vector<row> &b, int flags = 0 );
 
   // Assignment and swapping
-  void swap( falseness_table &other ) { t.swap( other.t ); }
+  void swap( falseness_table &other ) {
+    t.swap( other.t ); RINGING_PREFIX_STD swap( flags, other.flags );
+  }
 
   // Iterators
   typedef row value_type;
@@ -113,7 +115,10 @@ public:
   false_courses( const method &m, int flags = 0 );
 
   // Assignment and swapping
-  void swap( false_courses &other ) { t.swap( other.t ); }
+  void swap( false_courses &other ) {
+    t.swap( other.t ); RINGING_PREFIX_STD swap( flags, other.flags );
+    lh.swap( other.lh );
+  }
 
   // Iterators
   typedef row value_type;
-- 
2.43.0


From bf69edeca7258338d7d049c46d3a9c0bf3ad1261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 026/174] fix: provers kept repeated rows in the wrong order

Removing a row removed its first occurrence instead of its last, and the
lines on which a row is repeated were not listed in order.
---
 ringing/proof.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/proof.cpp b/ringing/proof.cpp
index 4405f39..ae05833 100644
--- a/ringing/proof.cpp
+++ b/ringing/proof.cpp
@@ -80,8 +80,8 @@ bool prover::add_row( const row &r )
 
   range const& rng = ranges.back();
 
-  mmap::iterator i( m.insert( rng.first == m.begin() ? m.begin() 
-			                             : prior( rng.first ),
+  // Equal rows are kept in the order of their lines.
+  mmap::iterator i( m.insert( rng.second, 
 			      mmap::value_type( r, ++lineno ) ) );
 
   if ( n > 1 )
-- 
2.43.0


From 5bef279f4f1b48bf5dc266f92ee21d9ef229dedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 027/174] fix: failure information omitted some lines and kept
 others

Lines in a chained prover were left out, and a row stayed listed as
repeated after enough of its occurrences had been removed.
---
 ringing/proof.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ringing/proof.cpp b/ringing/proof.cpp
index ae05833..5ba4051 100644
--- a/ringing/proof.cpp
+++ b/ringing/proof.cpp
@@ -109,13 +109,13 @@ bool prover::add_row( const row &r )
 	  // in this range, we explicitly add it by hand afterwards.
 	  l._row = r;
 	  bool added_i = false;
-	  {
-	    for ( mmap::iterator j = rng.first; j != rng.second; ++j )
+	  for ( list<range>::const_iterator ri = ranges.begin(), 
+		  re = ranges.end(); ri != re; ++ri ) 
+	    for ( mmap::iterator j = ri->first; j != ri->second; ++j )
 	      {
 		if ( j == i ) added_i = true;
 		l._lines.push_back( j->second );
 	      }
-	  }
 	  if (!added_i) 
 	    l._lines.push_back( i->second );
 
@@ -163,7 +163,7 @@ void prover::remove_row( const row& r )
 	    if ( j->_row == r )
 	      {
 		j->_lines.pop_back(); 
-                if ( j->_lines.empty() ) fi->erase(j);
+                if ( (int) n - 1 <= max_occurs ) fi->erase(j);
                 break;
 	      }
         }
-- 
2.43.0


From 3c76256c3daadc464ecd06c089f14a3b901b4ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 028/174] fix: a branch of a false prover claimed to be true

---
 ringing/proof.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/proof.cpp b/ringing/proof.cpp
index 5ba4051..6b10a1c 100644
--- a/ringing/proof.cpp
+++ b/ringing/proof.cpp
@@ -177,6 +177,7 @@ prover::create_branch( shared_pointer<prover> const& chain )
   p->chain      = chain;
   p->max_occurs = chain->max_occurs;
   p->lineno     = chain->lineno;
+  p->falsec     = chain->falsec;
   p->dups       = chain->dups;
   p->fi         = chain->fi;
   // NB do not copy chain->m.
-- 
2.43.0


From f024520730af8803598976d655213ce0d43d430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 029/174] fix: proof's constructors used its failure list
 before constructing it

---
 ringing/proof.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/proof.h b/ringing/proof.h
index 0ac162d..fd01d4d 100644
--- a/ringing/proof.h
+++ b/ringing/proof.h
@@ -228,8 +228,9 @@ public:
   int operator!() const { return !istrue; }
 
 private:
-  bool istrue;                   // Well, is it true or not?
   failinfo where;                // Details of where it failed.
+                                 // (Constructed before istrue needs it.)
+  bool istrue;                   // Well, is it true or not?
 }; 
 
 /******************************************
-- 
2.43.0


From fc29c631ffe855dae68866bcb0a0c029fb882208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 030/174] fix: a full proof listed only the first repeated row

It also listed again what an earlier proof had found.
---
 ringing/proof.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ringing/proof.h b/ringing/proof.h
index fd01d4d..abad892 100644
--- a/ringing/proof.h
+++ b/ringing/proof.h
@@ -248,11 +248,12 @@ bool proof<RowIterator>::prove(RowIterator true_first,
 			       bool qp)
 {
   scoped_pointer<prover> p( qp ? new prover(max) : new prover(where, max) );
+  where.clear();
   istrue = true;
   for ( ; true_first != true_last && (!qp || istrue) ; ++true_first )
-    istrue = istrue && p->add_row( *true_first );
+    istrue = p->add_row( *true_first ) && istrue;
   for ( ; unknown_first != unknown_last && (!qp || istrue) ; ++unknown_first )
-    istrue = istrue && p->add_row( *unknown_first );
+    istrue = p->add_row( *unknown_first ) && istrue;
   return istrue;
 }
 
-- 
2.43.0


From 4596e3ca9e7f7df7a458514269ec92c146cfc2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 031/174] fix: the half lead of a one-change method has no
 first row to set

---
 ringing/row.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index 656ad79..26fba99 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -601,7 +601,7 @@ static size_t row_block_base_size(vector<change> const& c, int flags)
 row_block::row_block(const vector<change> &c, int flags) 
   : vector<row>( row_block_base_size(c, flags) ), ch(c), flags(flags)
 {
-  if (ch.size()) {
+  if (size() && ch.size()) {
     (*this)[0] = row::rounds(ch[0].bells());
     recalculate();
   }
-- 
2.43.0


From af045c74e487b3cfaf80568e137324a2395ba1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 032/174] fix: touches with repeat counts of zero or with empty
 children

Iterating over a child list dereferenced the end of an empty child and
rang a child to be rung no times for ever.
---
 ringing/touch.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/ringing/touch.cpp b/ringing/touch.cpp
index d81a625..6d01ee3 100644
--- a/ringing/touch.cpp
+++ b/ringing/touch.cpp
@@ -84,9 +84,19 @@ private:
   friend class touch_child_list;
   iterator(list<entry>::const_iterator j, 
 	   list<entry>::const_iterator k) : i(j), last(k), count(0)
-  { if(i != last) { ci = (*i).second->begin(); } }
+  { find_child(); }
+  void find_child();
 };
 
+// Start on the first child, from i onwards, that has any changes
+void touch_child_list::iterator::find_child()
+{
+  for ( ; i != last; ++i ) {
+    ci = (*i).second->begin();
+    if ((*i).first != 0 && ci != (*i).second->end()) break;
+  }
+}
+
 
 touch_node::iterator_base& touch_child_list::iterator::operator++()
 {
@@ -97,10 +107,8 @@ touch_node::iterator_base& touch_child_list::iterator::operator++()
       ci = (*i).second->begin();
     } else {
       ++i;
-      if(i != last) {
-	count = 0;
-	ci = (*i).second->begin();
-      }
+      count = 0;
+      find_child();
     }
   }
   return *this;
-- 
2.43.0


From 29783e0654a7dfb97e4986dd8d7781c083511458 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 033/174] fix: table_search's older constructors left its
 length range or flags unset

---
 ringing/table_search.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index edf138e..54c3ca7 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -90,14 +90,13 @@ table_search::table_search( const method &meth, const vector<change> &calls,
 table_search::table_search( const method &meth, const vector<change> &calls,
                             bool set_nr )
   : meth( meth ), calls( calls ),
+    lenrange( make_pair( size_t(0), size_t(-1) ) ),
     f( set_nr ? ignore_rotations : no_flags )
 {}
 
 table_search::table_search( const method &meth, const vector<change> &calls,
                             pair< size_t, size_t > lenrange, bool set_nr )
-  : meth( meth ), calls( calls ),
-    lenrange( range_div( lenrange, f & length_in_changes
-                                     ? partends.size() * meth.length() : 1) ),
+  : meth( meth ), calls( calls ), lenrange( lenrange ),
     f( set_nr ? ignore_rotations : no_flags )
 {
   DEBUG( "Length range set to " << lenrange.first << "-" << lenrange.second 
-- 
2.43.0


From f5656d40916926c16aa34d387d9224fd53902cb4 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 034/174] fix: touch searches repeated some rotations of
 touches and lost others

---
 ringing/basic_search.cpp | 15 ++++++---------
 ringing/table_search.cpp | 15 ++++++---------
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/ringing/basic_search.cpp b/ringing/basic_search.cpp
index 2d466fa..0d17df8 100644
--- a/ringing/basic_search.cpp
+++ b/ringing/basic_search.cpp
@@ -133,7 +133,6 @@ private:
   void output_touches( outputer &output, size_t cur )
   {
     size_t len( calls.size() );
-    size_t parts( len % cur ? cur : len / cur );
     list< touch_child_list::entry > &ch = tl->children();
 
     ch.clear();
@@ -144,7 +143,7 @@ private:
     force_halt = output( t );
 
     if ( ! ignore_rotations )
-      for ( size_t start = 1; !force_halt && start < len / parts; ++start )
+      for ( size_t start = 1; !force_halt && start < cur; ++start )
 	{
 	  // Try all of it's distinguishable rotations.
 	  ch.splice( ch.end(), ch, ch.begin() );
@@ -173,13 +172,11 @@ private:
 
   // ... and this function checks that a touch fragment for which 
   // is_possibly_canonical() returns true is a canonical complete touch.
-  bool is_really_canonical()
+  bool is_really_canonical( size_t cur )
   {
-    for ( vector< size_t >::const_iterator i( calls.begin() ); 
-	  i != calls.end(); ++i )
-      if ( *i != calls.front() )
-	return calls.back() != calls.front();
-    return true;
+    // It is canonical if it is a whole number of copies of the shortest 
+    // prefix, of length cur, that it can be a repetition of.
+    return calls.size() % cur == 0;
   }
 
   // The main loop of the algorithm   
@@ -193,7 +190,7 @@ private:
     if ( is_row_false( r ) )
       {
 	// Has it come round, and is it in it's canonical form?
-	if ( depth >= lenrange.first && r.isrounds() && is_really_canonical() )
+	if ( depth >= lenrange.first && r.isrounds() && is_really_canonical( cur ) )
 	  output_touches( output, cur );
 
       }
diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index 54c3ca7..911c83c 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -268,8 +268,7 @@ private:
 
     // Try all of it's distinguishable rotations.
     if ( !(f & ignore_rotations) && table.partends().size() == 1 ) {
-      size_t parts( len % cur ? cur : len / cur );
-      for ( size_t start = 1; !force_halt && start < len / parts; ++start ) {
+      for ( size_t start = 1; !force_halt && start < cur; ++start ) {
         ch.splice( ch.end(), ch, ch.begin() );
         force_halt = output( t );
       }
@@ -300,17 +299,15 @@ private:
 
   // ... and this function checks that a touch fragment for which 
   // is_possibly_canonical() returns true is a canonical complete touch.
-  bool is_really_canonical()
+  bool is_really_canonical( size_t cur )
   {
     // Multipart comps are always canonical (because we don't prue rotations
     // from multi-part searches)
     if ( table.partends().size() > 1 ) return true;
 
-    for ( vector< size_t >::const_iterator i( calls.begin() ); 
-	  i != calls.end(); ++i )
-      if ( *i != calls.front() )
-	return calls.back() != calls.front();
-    return true;
+    // It is canonical if it is a whole number of copies of the shortest 
+    // prefix, of length cur, that it can be a repetition of.
+    return calls.size() % cur == 0;
   }
 
   // The main loop of the algorithm   
@@ -334,7 +331,7 @@ private:
 	// Has it come round, and is it in it's canonical form?
 	if ( depth >= lenrange.first 
              && ( (f & non_round_blocks) || r.isrounds() ) 
-             && is_really_canonical() )
+             && is_really_canonical( cur ) )
 	  output_touch( output, cur );
       }
     else if ( depth < lenrange.second )
-- 
2.43.0


From caa85a89431b302b2149084aa02bb136070a051d Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 035/174] fix: basic_search ignored falseness that moves the
 treble

---
 ringing/basic_search.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ringing/basic_search.cpp b/ringing/basic_search.cpp
index 0d17df8..3ea4a5b 100644
--- a/ringing/basic_search.cpp
+++ b/ringing/basic_search.cpp
@@ -80,20 +80,24 @@ public:
 private:
   void init_falseness( const method &meth )
   {
+    // If all calls have even parity, we can exclude out-of-course falsenesses
+    int flags( falseness_table::in_course_only );
+
     for ( vector< row >::const_iterator i( call_lhs.begin() ); 
 	  i != call_lhs.end(); ++i )
       {
+	// At least one odd parity call, so we must consider 
+	// out-of-course falsenesses
 	if ( i->sign() == -1 )
-	  {
-	    // At least one odd parity call, so we must consider 
-	    // out-of-course falsenesses
-	    falsenesses = falseness_table( meth );
-	    return;
-	  }
+	  flags &= ~falseness_table::in_course_only;
+
+	// At least one call moves the treble, so we must consider
+	// falsenesses that do
+	if ( (*i)[0] != 0 )
+	  flags |= falseness_table::no_fixed_treble;
       }
 
-    // All calls have even parity so we can exclude out-of-course falsenesses
-    falsenesses = falseness_table( meth, falseness_table::in_course_only );
+    falsenesses = falseness_table( meth, flags );
   }
 
   void init_call( const row &le, const change &ch )
-- 
2.43.0


From 06277e1efbfc1c832da15b53a957eaacbe1e551f Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 036/174] fix: table_search ignored odd falseness when a part
 end is odd

---
 ringing/table_search.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index 911c83c..891eb19 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -154,6 +154,13 @@ private:
         return false;
       }
 
+    for ( group::const_iterator i( s->partends.begin() ); 
+          i != s->partends.end(); ++i )
+      if ( i->sign() == -1 ) {
+        DEBUG( "Part end " << *i << " is out-of-course" );
+        return false;
+      }
+
     DEBUG( "All lead heads are in-course" );
     return true;
   }
-- 
2.43.0


From f01b8e5afa0a42bfe01fbf3d0b3cb4fa9849ff10 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 037/174] fix: touch searches found touches of leads that
 repeat a row

---
 ringing/basic_search.cpp | 18 +++++++++++++++---
 ringing/table_search.cpp | 15 +++++++++++++--
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/ringing/basic_search.cpp b/ringing/basic_search.cpp
index 3ea4a5b..b512dd0 100644
--- a/ringing/basic_search.cpp
+++ b/ringing/basic_search.cpp
@@ -58,10 +58,20 @@ class basic_search::context : public search_base::context_base
 public:
   context( const basic_search *s ) 
     : lenrange( s->lenrange ),
+      impossible( false ),
       ignore_rotations( s->ignore_rotations )
   {
-    row le; 
-    for_each( s->meth.begin(), s->meth.end()-1, permute(le) );
+    row le( s->meth.bells() );
+    set<row> lead;
+    for ( method::const_iterator i( s->meth.begin() ); 
+	  i != s->meth.end(); ++i )
+      {
+	// If the lead is false in itself, there are no true touches.
+	if ( !lead.insert( le ).second )
+	  impossible = true;
+	if ( i != s->meth.end()-1 )
+	  le *= *i;
+      }
       
     t.push_back( new touch_changes( s->meth.begin(), s->meth.end()-1 ) );
 
@@ -120,7 +130,8 @@ private:
   {
     force_halt = false;
     leads.clear();
-    run_recursive( output, row( call_lhs.front().bells() ), 0, 0 );
+    if ( !impossible )
+      run_recursive( output, row( call_lhs.front().bells() ), 0, 0 );
   }
 
   bool is_row_false( const row &r )
@@ -218,6 +229,7 @@ private:
   // Data members
   pair< size_t, size_t > lenrange;	// The min & max lengths (in leads)
   bool force_halt;			// Are we terminating the search?
+  bool impossible;			// Can the search not succeed?
   vector< size_t > calls;		// The calls we've had so far
   touch t;				// The current touch
   touch_child_list *tl;
diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index 891eb19..4cd5d52 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -27,8 +27,10 @@
 #if RINGING_OLD_INCLUDES
 #include <vector.h>
 #include <bvector.h>
+#include <set.h>
 #else
 #include <vector>
+#include <set>
 #endif
 #include <ringing/search_base.h>
 #include <ringing/table_search.h>
@@ -113,8 +115,17 @@ public:
   {
     DEBUG( "Constructing context: table size " << table.size() );
 
-    row le; 
-    for_each( s->meth.begin(), s->meth.end()-1, permute(le) );
+    row le( s->meth.bells() );
+    set<row> lead;
+    for ( method::const_iterator i( s->meth.begin() ); 
+          i != s->meth.end(); ++i )
+    {
+      // If the lead is false in itself, there are no true touches.
+      if ( !lead.insert( le ).second )
+        impossible = true;
+      if ( i != s->meth.end()-1 )
+        le *= *i;
+    }
       
     t.push_back( new touch_changes( s->meth.begin(), s->meth.end()-1 ) );
 
-- 
2.43.0


From 8081484307dd313291571b521f542ce0300e6acb Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 038/174] fix: table_search missed leads false against their
 own other parts

---
 ringing/table_search.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index 4cd5d52..7a7e14b 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -209,10 +209,7 @@ private:
     for ( falseness_table::const_iterator i( ft.begin() ); i != ft.end(); ++i )
     {
       // If the lead is false against the part-end then we can never
-      // get a touch on this plan.  This is not just an efficiency hack
-      // -- our proof algorithm doesn't check when a lead is false against
-      // itself, and for an n-part touch a lead being false against the
-      // part end is a form of that.
+      // get a touch on this plan.  
       if ( !i->isrounds() && 
            find( table.partends().begin(), table.partends().end(), *i )
              != table.partends().end() )
@@ -220,6 +217,8 @@ private:
 
       DEBUG( "FLH: " << *i );
       falsenesses.push_back( table.compute_post_mult( *i ) );
+      if ( !i->isrounds() )
+        nontrivial_fs.push_back( falsenesses.back() );
     }
   }
 
@@ -263,6 +262,21 @@ private:
     return false;
   }
 
+  // Is the lead starting at row r false against its own counterpart in 
+  // another part?
+  bool is_lead_self_false( const row_t &r )
+  {
+    if ( table.partends().size() == 1 )
+      return false;
+
+    for ( vector< post_col_t >::const_iterator i( nontrivial_fs.begin() ); 
+	  i != nontrivial_fs.end(); ++i )
+      if ( (r * *i).index() == r.index() )
+	return true;
+
+    return false;
+  }
+
   // Output the current touch and any rotations of it.
   void output_touch( outputer &output, size_t cur )
   {
@@ -352,7 +366,7 @@ private:
              && is_really_canonical( cur ) )
 	  output_touch( output, cur );
       }
-    else if ( depth < lenrange.second )
+    else if ( depth < lenrange.second && !is_lead_self_false( r ) )
       {
 	leads[r.index()] = true;
 	calls.push_back( 0 );
@@ -388,6 +402,7 @@ private:
   lead_vector_t leads;			// The leads had so far
   vector< post_col_t > call_lhs;	// The effect of each call (inc. Pl.)
   vector< post_col_t > falsenesses;	// The falsenesses of the method
+  vector< post_col_t > nontrivial_fs;	// The same, but without rounds
 };
 
 search_base::context_base *table_search::new_context() const 
-- 
2.43.0


From df5313f1a5445c95750b259e3b8957587a8b8d6c Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 039/174] fix: matching a pattern read past the end of a row

---
 ringing/music.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index 49039b2..31d7fed 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -341,6 +341,10 @@ bool music_node::match(const row &r, unsigned int pos,
     matched = true;
   }
 
+  // There are no more bells to match.
+  if (pos >= r.bells())
+    return matched;
+
   // Is there a wildcard subnode at index 0?
   BellNodeMap::const_iterator j = subnodes.find(0);
   if (j != subnodes.end()) {
-- 
2.43.0


From ef1c41a21a0ac5d859e8990e6ffbfa79067ecbc1 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 040/174] fix: patterns with stars that match no bells or many
 did not match

---
 ringing/music.cpp | 41 +++++++++++++----------------------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index 31d7fed..e64df55 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -279,20 +279,19 @@ void music_node::add(const string &mds, unsigned int i,
       if (i+1 == mds.size())
         detailsmatch.push_back(key);
 
-      // Is this the last * in the pattern?  If so, it is handled by
-      // add_to_subtree().
-      else if (mds.find('*', i + 1) == string::npos) 
-        add_to_subtree(0, mds, i, key, pos, true);
-          
       else {
-        // We have something like '*456*'
-        // First ignore the star and just move on.
-        add(mds, i + 1, key, pos);
-        // Now deal with the star
-        if (mds.size() - i >= pos)
+        // The number of bells needed by the rest of the pattern
+        unsigned int const need = pos + count_bells(mds.substr(i + 1));
+        bool const last_star = mds.find('*', i + 1) == string::npos;
+
+        // Match no (more) bells.  If this is the last * in the pattern, 
+        // that's only possible if there's just room for the rest of it. 
+        if (last_star ? need == bells : need <= bells)
+          add(mds, i + 1, key, pos);
+
+        // Match another bell, if there's room.
+        if (need < bells)
           add_to_subtree(0, mds, i, key, pos, true);
-        else
-          add_to_subtree(0, mds, i, key, pos, false);
       }
     }
     else throw music_details::invalid_regex(mds, 
@@ -305,22 +304,8 @@ void music_node::add_to_subtree(unsigned int place, const string &mds, unsigned
   cloning_pointer<music_node>& j = subnodes[place];
   if (!j) j.reset( new music_node(bells) );
 
-  if (process_star)
-    {
-      // We are to process star data star.
-      if (bells - pos == count_bells(mds.substr(i, mds.size() - i)) + 1 &&
-	  mds.find('*', i + 1) >= mds.size())
-	// There are now only numbers to go.
-	j->add(mds, i + 1, key, pos + 1);
-      else
-	// We haven't got to the last * position yet, so carry on.
-	j->add(mds, i, key, pos + 1);
-    }
-  else
-    {
-      // Not a star, so move on as normal.
-      j->add(mds, i + 1, key, pos + 1);
-    }
+  // A star might match more bells; otherwise move on as normal.
+  j->add(mds, process_star ? i : i + 1, key, pos + 1);
 }
 
 bool music_node::match(const row &r, unsigned int pos, 
-- 
2.43.0


From d471a7efdc9fb41ae9d92258e2a9259e09c2f27a Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 041/174] fix: music counted a row once for each way of
 matching it

---
 ringing/music.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index e64df55..254c94e 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -49,7 +49,8 @@ public:
            unsigned int pos);
 
   bool match(const row &r, unsigned int pos, vector<music_details> &results, 
-             const EStroke &stroke, vector<bell> const& wildcard_matches) const;
+             const EStroke &stroke, vector<bell> const& wildcard_matches,
+             vector<bool>& counted) const;
 
   // Helper function to work with cloning_pointer.
   music_node* clone() const { return new music_node(*this); }
@@ -310,7 +311,7 @@ void music_node::add_to_subtree(unsigned int place, const string &mds, unsigned
 
 bool music_node::match(const row &r, unsigned int pos, 
                        vector<music_details> &results, const EStroke &stroke, 
-                       vector<bell> const& wilds) const
+                       vector<bell> const& wilds, vector<bool>& counted) const
 {
   bool matched = false;
 
@@ -321,7 +322,11 @@ bool music_node::match(const row &r, unsigned int pos,
     for (unsigned k = pos; k < r.bells(); ++k)
       wilds2.push_back(r[k]);
 
-    results[*i].increment(stroke);
+    // A row only counts once, however many ways there are of matching it.
+    if (!counted[*i]) {
+      counted[*i] = true;
+      results[*i].increment(stroke);
+    }
     results[*i].last_wildcards = wilds2;
     matched = true;
   }
@@ -337,13 +342,15 @@ bool music_node::match(const row &r, unsigned int pos,
     vector<bell> wilds2(wilds); 
     wilds2.push_back(r[pos]);
 
-    matched = j->second->match(r, pos + 1, results, stroke, wilds2) || matched;
+    matched = j->second->match(r, pos + 1, results, stroke, wilds2, counted) 
+                || matched;
   }
     
   // Is there a subnode matching this specific bell?
   j = subnodes.find(r[pos] + 1);
   if (j != subnodes.end())
-    matched = j->second->match(r, pos + 1, results, stroke, wilds) || matched;
+    matched = j->second->match(r, pos + 1, results, stroke, wilds, counted) 
+                || matched;
 
   return matched;
 }
@@ -409,8 +416,9 @@ bool music::process_row(const row &r, bool back)
   for (music_details& md : info)
     md.last_wildcards.clear();
 
+  vector<bool> counted( info.size(), false );
   return top_node->match(r, 0, info, back ? eBackstroke : eHandstroke,
-                         vector<bell>());
+                         vector<bell>(), counted);
 }
 
 // Return the total score for all items
-- 
2.43.0


From 72091049af9b2657c864b4987d44daa2dddce326 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 042/174] fix: clearing music left its patterns behind

---
 ringing/music.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index 254c94e..510bf9c 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -377,7 +377,7 @@ void music::clear(unsigned int new_b)
 {
   if (new_b) b = new_b;
   top_node.reset( new music_node(b) );
-  reset_music();
+  info.clear();
 }
 
 // Specify the music and add it into the search structure
-- 
2.43.0


From 28d2906c5a17c41d3073f98294ead4a08fa01dce Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 043/174] fix: changing the number of bells left music matching
 the old number

---
 ringing/music.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index 510bf9c..e6e81c0 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -43,7 +43,6 @@ class music_node
 public:
   // Have to know how many bells there are
   music_node(unsigned int b) : bells(b) {} 
-  void set_bells(unsigned int b);
 
   void add(const string &mds, unsigned int i, unsigned int key, 
            unsigned int pos);
@@ -214,16 +213,6 @@ bool music_details::check_bells( unsigned bells ) const
 // function definitions for MUSIC_NODE
 // ********************************************************
 
-void music_node::set_bells(unsigned int b)
-{
-  bells = b;
-
-  // and iterate over each subnode setting it there
-  for (BellNodeMap::iterator i=subnodes.begin(), e=subnodes.end(); i!=e; ++i)
-    if (i->second)
-      i->second->set_bells(b);
-}
-
 // "mds" is the pattern as a string, and "i" is the current character offset
 // into it (as we are called recursively).  "key" is used to identify which
 // pattern matched, if we have several patterns.  "pos" is the logical offset
@@ -396,8 +385,11 @@ void music::set_bells(unsigned int new_b)
     for (iterator i=info.begin(), e=info.end(); i!=e; ++i)
       i->check_bells(new_b);
 
-    top_node->set_bells(new_b);
+    // What a * can match depends on the number of bells
     b = new_b;
+    top_node.reset( new music_node(b) );
+    for (size_type i=0; i<info.size(); ++i)
+      top_node->add(info[i].get(), 0, i, 0);
   }
 }
 
-- 
2.43.0


From 07e8eba73aed73a3eadceed89b55a96a3a147c2c Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 044/174] fix: scores for music with a plus sign were not
 understood

---
 ringing/music.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index e6e81c0..1d86925 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -579,7 +579,8 @@ void music::add_scored_music_string( string const& s )
             scoreh = atoi( pattern.c_str() );
             comma = j;
           }
-        else if ( !isdigit( pattern[j] ) && pattern[j] != '-' )
+        else if ( !isdigit( pattern[j] ) && pattern[j] != '-' 
+                  && pattern[j] != '+' )
           break;
     }
 
-- 
2.43.0


From bcaebdc75a0bda7ad7f97e9ac8c529a84f4d94c0 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 045/174] fix: count of rows matching a pattern was wrong for
 several stars or repeated bells

---
 ringing/row_wildcard.cpp | 477 ++++++++++++---------------------------
 ringing/row_wildcard.h   |  16 --
 2 files changed, 144 insertions(+), 349 deletions(-)

diff --git a/ringing/row_wildcard.cpp b/ringing/row_wildcard.cpp
index 2594ff2..8a31c49 100644
--- a/ringing/row_wildcard.cpp
+++ b/ringing/row_wildcard.cpp
@@ -27,8 +27,10 @@
 #include <ringing/row_wildcard.h>
 #include <ringing/bell.h>
 
+#include <map>
+#include <set>
 #include <string>
-#include <cassert>
+#include <vector>
 
 RINGING_START_NAMESPACE
 
@@ -66,172 +68,6 @@ bool row_wildcard::set_bells( unsigned bells )
   return true;
 }
 
-RINGING_START_ANON_NAMESPACE
-
-// Count 1 for each '?', bell symbol, or [...]; and none for a '*'.
-unsigned int count_bells(const string &s)
-{
-  unsigned int total = 0;
-  string::const_iterator i;
-  bool in_brackets = false;
-  for (i = s.begin(); i != s.end(); i++)
-    {
-      if (*i == '?')
-	{
-	  total++;
-	}
-      else if (*i == '[')
-	{
-	  in_brackets = true;
-	}
-      else if (*i == ']')
-	{
-	  total++; // [...] = 1 bell.
-	  in_brackets = false;
-	}
-      else if ( !in_brackets && bell::is_symbol(*i) )
-	{
-	  total++;
-	}
-    }
-  return total;
-}
-
-string expand_star( string const& src, unsigned star_pos, unsigned count )
-{
-  string expanded( src, 0, star_pos );
-  expanded.append( count, '?' );
-  expanded.append( src, star_pos + 1, src.size() - star_pos - 1);
-  return expanded;
-}
-
-RINGING_END_ANON_NAMESPACE
-
-void row_wildcard::copy_choices( string& dest, 
-                                 string const& src, unsigned& pos ) const
-{
-  assert( src[pos] == '[' );
-  unsigned p_end = src.find( ']', pos );
-  if ( p_end == string::npos ) 
-    RINGING_THROW_OR_EXPR( 
-      row_wildcard::invalid_pattern( pat, "Missing ]" ),
-      p_end = src.size()-1 );
-
-  dest.append( src, pos, p_end-pos+1 );
-  pos = p_end;
-}
-
-bool row_wildcard::copy_if_choices_contains( string& dest, 
-                                             string const& src, unsigned& pos,
-                                             char sym ) const
-{
-  assert( src[pos] == '[' );
-  unsigned p_end = src.find( ']', pos );
-  if ( p_end == string::npos ) 
-    RINGING_THROW_OR_EXPR( 
-      row_wildcard::invalid_pattern( pat, "Missing ]" ),
-      p_end = src.size()-1 );
-
-  unsigned p_sym = src.find( sym, pos );
-  if ( p_sym > p_end ) return false;
-  dest += sym;
-  pos = p_end;
-  return true;
-}
-
-bool row_wildcard::copy_choices_intersection( string& dest, 
-                                              string const& a, unsigned& ai,
-                                              string const& b, unsigned& bi )
-                                                                         const
-{
-  assert( a[ai] == '[' && b[bi] == '[' );
-  dest += '['; 
-
-  unsigned b_init = bi;
-  bool had_one = false;
-  for ( ++ai; a[ai] != ']'; ++ai ) {
-    bi = b_init;
-    if ( copy_if_choices_contains( dest, b, bi, a[ai] ) ) 
-      had_one = true;
-  }
-
-  dest += ']';
-  return had_one;
-}
-
-
-// This is not a general purpose intersection function -- it only 
-// parses A and B up to the first '*' and assumes that they are 
-// identical after that.  Returns false if the intersection is
-// necessarily zero.
-bool row_wildcard::make_intersection( string& dest, 
-                                      string const& a, string const& b ) const
-{
-  unsigned ai = 0, bi = 0;
-  unsigned an = a.find('*'), bn = b.find('*');
-  assert( an != string::npos && bn != string::npos );
-  assert( a.substr(an) == b.substr(bn) );
-
-  while ( ai != an || bi != bn ) 
-  {
-    bool a_wild = ( a[ai] == '*' || a[ai] == '?' );
-    bool b_wild = ( b[bi] == '*' || b[bi] == '?' );
-
-    bool a_bell = bell::is_symbol( a[ai] );
-    bool b_bell = bell::is_symbol( b[bi] );
-
-    bool a_set  = ( a[ai] == '[' );
-    bool b_set  = ( b[bi] == '[' );
-
-    if ( a_wild && b_wild ) 
-      dest += '?';
-
-    else if ( a_wild && b_bell )
-      dest += b[bi];
-    else if ( b_wild && a_bell )
-      dest += a[ai];
-
-    else if ( a_bell && a_bell ) {
-      if ( a[ai] == b[bi] ) 
-        dest += a[ai];
-      else return false;
-    }
-
-    else if ( a_wild && b_set ) 
-      copy_choices( dest, b, bi );  // bi now refers to ']'
-    else if ( b_wild && a_set ) 
-      copy_choices( dest, a, ai );  // bi now refers to ']'
-
-    else if ( a_bell && b_set ) {
-      if ( !copy_if_choices_contains(dest, b, bi, a[ai]) ) 
-        return false;
-    }
-    else if ( b_bell && a_set ) {
-      if ( !copy_if_choices_contains(dest, a, ai, b[bi]) ) 
-        return false;
-    }
-
-    else if ( a_set && b_set ) {
-      if ( !copy_choices_intersection(dest, a, ai, b, bi) )
-        return false;
-    }
-
-    else RINGING_THROW_OR_RETURN( 
-      row_wildcard::invalid_pattern( string(), 
-        string("Unknown symbol: ") 
-          + ( a_set || a_wild || a_bell ? b[bi] : a[ai] ) ),
-      false );
-
-
-    if ( ai < an ) ++ai;
-    if ( bi < bn ) ++bi;
-  }
-
-  dest += a.substr(an);
-  return true;
-}
-
-
 // Function to provide a brief check if an expression is valid/invalid.
 bool row_wildcard::check_expression() const
 {
@@ -277,182 +113,157 @@ bool row_wildcard::check_expression() const
   return true;
 }
 
-RINGING_ULLONG row_wildcard::count( unsigned bells ) const
-{
-  int q = 0;
-  if (!bells) bells = b;
-
-  if (!bells)
-    RINGING_THROW_OR_RETURN(
-      invalid_pattern(pat, "Number of bells unspecified"), 0 );
-    
-  return possible_matches(bells, 0, pat, q);
-}
+RINGING_START_ANON_NAMESPACE
 
-// This function is subtle: counting the number of possible matches
-// is harder than it might seem.  E.g. we need to be able to 
-// determine that [12][23][34][14] only actually has two matches --
-// once the first bell has been chosen, the rest is forced.
+// Counts the rows which match the pattern by choosing their bells one at a time 
+// from the front, keeping track of every place in the pattern that we could 
+// have got to, so that a row that matches in several ways counts only once.
 //
-// The function is called recursively to iterate through the pattern string
-// which is passed in S, position by position, where POS is the offset into
-// S of the character we're considering.   When a '[...]' is encountered,
-// recurse try each possibility in turn, thus the leading substring of S
-// -- i.e. the section [0, POS) -- never contains a [].  When a '*' is 
-// encountered, we rewrite it as a sequence of '?'s.  If multiple '*'s are
-// present, we try each possibility separately -- and, critically, subtract
-// the double-counting due to a single row matching multiple times (see 
-// comment below for discussion).  Q keeps track of the number of '?'s 
-// already found; we multiply by Q each time we find one with the overall 
-// result of Q! for a series of Q '?'s.
+// Any bells that aren't mentioned in the pattern are interchangeable, so we
+// only need to choose between the bells that are mentioned and one of the 
+// others.  The number of ways of completing the row is then determined by how 
+// many bells have been chosen, which of those mentioned they include, and the 
+// places that we've got to, which means we can remember the answers.
 //
-RINGING_ULLONG row_wildcard::possible_matches
-  ( unsigned int bells, unsigned int pos, const string &s, int &q ) const
+class match_counter
 {
-  if (pos >= s.size())
-    {
-      // Elsewhere (and traditionally in the music_details class) we
-      // consider a overly-short pattern without a star (e.g. '5') to
-      // have an implicit trailing '*'.  For consistency, lets do that here.
-      if ( count_bells(s) < bells )
-        return possible_matches( bells, pos, s + '*', q );
-      else
-        return 1;
-    }
-  else
-    {
-      if (bell::is_symbol(s[pos]))
-	{
-	  return possible_matches(bells, pos + 1, s, q);
-	}
-      else if (s[pos] == '?')
-	{
-	  int new_q = ++q;
-	  return possible_matches(bells, pos + 1, s, q) * new_q;
-	}
-      else if (s[pos] == '[')
-	{
-	  RINGING_ULLONG total = 0;
+public:
+  match_counter( string const& pat, unsigned bells )
+    : bells(bells), has_star(false)
+  {
+    for ( string::size_type i = 0; i < pat.size(); ++i )
+      {
+	item it;
+	it.star = pat[i] == '*';
+	it.any  = pat[i] == '?';
+	if ( it.star ) has_star = true;
+
+	if ( pat[i] == '[' )
+	  while ( ++i < pat.size() && pat[i] != ']' )
+	    mention( it, pat[i] );
+	else if ( !it.star && !it.any )
+	  mention( it, pat[i] );
+
+	items.push_back( it );
+      }
+
+    // Elsewhere (and traditionally in the music_details class) we
+    // consider a overly-short pattern without a star (e.g. '5') to
+    // have an implicit trailing '*'.  For consistency, lets do that here.
+    if ( !has_star && items.size() < bells )
+      {
+	item it;
+	it.star = true;
+	it.any = false;
+	items.push_back( it );
+      }
+  }
 
-	  // Replace the [...] with each item in it and 
-	  // pass through again.
-	  unsigned int lastpos = s.find(']', pos + 1);
-	  for (unsigned int i = pos + 1; i < lastpos; i++)
-	    {
-	      string modified(s, 0, pos);
-	      unsigned int newpos = modified.size();
-	      // Only do this if the bell isn't in the string already,
-              // and if it isn't already in the alternatives group.  Thus,
-              // [5][5]* will never match anything, and [55]* doesn't double
-              // count rows beginning with 5.
-	      if (modified.find(s[i]) == string::npos &&
-                  s.find(s[i],pos) == i)
-		{
-		  modified += s[i];
-		  modified += s.substr(lastpos + 1, s.size() - lastpos - 1);
-
-	          int orig_q = q;
-		  total += possible_matches(bells, newpos, modified, q);
-		  q = orig_q;
-		}
-	    }
+  RINGING_ULLONG count()
+  {
+    set<size_t> places;
+    reach( places, 0 );
+    return count( places, set<unsigned>(), 0 );
+  }
 
-	  return total;
-	}
-      else if (s[pos] == '*')
+private:
+  struct item { bool star, any; set<unsigned> choices; };
+
+  void mention( item& it, char sym )
+  {
+    unsigned b = bell::read_char( sym );
+    if ( b < bells ) 
+      {
+	it.choices.insert(b);
+	mentioned.insert(b);
+      }
+  }
+
+  // We've got to place i; if that's a star, it might match no bells.
+  void reach( set<size_t>& places, size_t i ) const
+  {
+    places.insert(i);
+    while ( i < items.size() && items[i].star )
+      places.insert(++i);
+  }
+
+  // Count the rows beginning with n bells, including those in used and no 
+  // other mentioned bells, that have got us to the given places.
+  RINGING_ULLONG count( set<size_t> const& places, set<unsigned> used, 
+			unsigned n )
+  {
+    if ( n == bells )
+      return places.count( items.size() ) ? 1 : 0;
+
+    key_type key( make_pair( places, used ), n );
+    memo_t::const_iterator k( memo.find(key) );
+    if ( k != memo.end() )
+      return k->second;
+
+    RINGING_ULLONG total = 0;
+
+    for ( set<unsigned>::const_iterator b( mentioned.begin() ); 
+	  b != mentioned.end(); ++b )
+      if ( used.insert(*b).second )
 	{
-          // Two consecutive '*'s should be replaced with a single one
-          // as the code to handle the intersection between moving sections
-          // is inefficient and this is one of the worst cases.
-          if ( s.size() > pos + 1 && s[pos+1] == '*' ) 
-            {
-              string modified( s, 0, pos );
-              modified.append( s, pos + 1, s.size() - pos - 1 );
- 
-              return possible_matches( bells, pos, modified, q );
-            }
-
-          // The largest number of '?'s that this could represent.
-          const unsigned n = bells - count_bells(s);
-
-	  if ( s.size() == pos + 1 || s.find('*', pos + 1) == string::npos )
-	    {
-	      // Pattern has just 1 star, so replace with maximum '?'
-	      return possible_matches(bells, pos, expand_star(s, pos, n), q);
-	    }
-	  else
-	    {
-       	      // More than 1 star. Replace string with 0, 1, 2... '?'
-	      // and calculate at each stage
-              //
-              // However, just doing this is not sufficient as it would
-              // have '*[35]*' match 240 different rows on five bells.
-              // The problem arises because we fail to handle the overlap 
-              // between '*5*' and '*3*'.  Both correctly match 120 times, 
-              // but that does not mean that '*[53]*' should match 120+120 
-              // times.
-              //
-              // When we expand the first '*' in '*[35]*' we sum the matches
-              // '[35]*' + '?[35]*' + '??[35]*' + '???[35]*' + '????[35]*'.
-              // However, we also need to subtract the intersections
-              // between each of the 5*4/2=10 pairs.  For example, the first
-              // intersection '[35]*' AND '?[35]*' is '[35][35]*' which 
-              // matches 2x6=12 times.  The other nine intersections 
-              // contribute the same giving a total of 240-10*12 = 120.
-              //
-              // However, as a useful optimisation, we can observe that
-              // the intersections are all zero iff the fragment of the
-              // pattern between the two '*'s includes a fixed bell.   For
-              // example, '*5*3*1*' has a fixed bell between each pair of 
-              // '*'s and so is correctly calculated (20 on five bells)
-              // without calculating the intersection.  As calculating
-              // the intersection is O(BELLS^2), this is best avoided 
-              // where possible.
-              //
-              bool need_intersection = true;
-              {
-                size_t frag_end = s.find('*', pos + 1);
-                bool in_bracket = false;
-                bool had_fixed_bell = false;
-                for ( unsigned i = pos+1; i < frag_end; ++i )
-                  if ( s[i] == '[' ) 
-                    in_bracket = true;
-                  else if ( s[i] == ']' ) 
-                    in_bracket = false;
-                  else if ( !in_bracket && bell::is_symbol(s[i]) ) 
-                    need_intersection = false;
-              }
-
-	      RINGING_ULLONG total = 0;
-
-  	      for ( unsigned i = 0; i <= n; ++i )
-		{
-		  string modified = expand_star(s, pos, i);
-
-	          int orig_q = q;
-		  total += possible_matches(bells, pos, modified, q);
-		  q = orig_q;
-
-                  for ( unsigned j = 0; need_intersection && j < i; ++j )
-                    {
-                      string intersect;
-                      if ( make_intersection
-                             ( intersect, modified, expand_star(s,pos,j) ) )
-                        total -= possible_matches( bells, pos, intersect, q );
-
-                      q = orig_q;
-                    }
-		}
-
-	      return total;
-	    }
+	  set<size_t> next;
+	  advance( next, places, *b );
+	  if ( !next.empty() )
+	    total += count( next, used, n+1 );
+	  used.erase(*b);
 	}
-      else
+
+    // The number of bells left that the pattern doesn't mention
+    unsigned const others 
+      = ( bells - mentioned.size() ) - ( n - used.size() );
+
+    if ( others )
+      {
+	set<size_t> next;
+	advance( next, places, bells );
+	if ( !next.empty() )
+	  total += others * count( next, used, n+1 );
+      }
+
+    memo[key] = total;
+    return total;
+  }
+
+  void advance( set<size_t>& next, set<size_t> const& places, 
+		unsigned b ) const
+  {
+    for ( set<size_t>::const_iterator i( places.begin() ); 
+	  i != places.end(); ++i )
+      if ( *i < items.size() )
 	{
-          RINGING_THROW_OR_RETURN( 
-            invalid_pattern(pat, string("Unknown character: ") + s[pos]), 0 );
+	  if ( items[*i].star )
+	    reach( next, *i );
+	  else if ( items[*i].any || items[*i].choices.count(b) )
+	    reach( next, *i + 1 );
 	}
-    }
+  }
+
+  unsigned bells;
+  bool has_star;
+  vector<item> items;
+  set<unsigned> mentioned;
+
+  typedef pair< pair< set<size_t>, set<unsigned> >, unsigned > key_type;
+  typedef map< key_type, RINGING_ULLONG > memo_t;
+  memo_t memo;
+};
+
+RINGING_END_ANON_NAMESPACE
+
+RINGING_ULLONG row_wildcard::count( unsigned bells ) const
+{
+  if (!bells) bells = b;
+
+  if (!bells)
+    RINGING_THROW_OR_RETURN(
+      invalid_pattern(pat, "Number of bells unspecified"), 0 );
+
+  return match_counter( pat, bells ).count();
 }
 
 #if RINGING_USE_EXCEPTIONS
diff --git a/ringing/row_wildcard.h b/ringing/row_wildcard.h
index 18bf7f9..f3fc370 100644
--- a/ringing/row_wildcard.h
+++ b/ringing/row_wildcard.h
@@ -72,22 +72,6 @@ public:
 private:
   bool check_expression() const;
 
-  void copy_choices
-    ( string& dest, string const& src, unsigned& pos ) const;
-
-  bool copy_if_choices_contains
-    ( string& dest, string const& src, unsigned& pos, char sym ) const;
-
-  bool copy_choices_intersection 
-    ( string& dest, string const& a, unsigned& ai,
-                    string const& b, unsigned& bi ) const;
-
-  bool make_intersection
-    ( string& dest, string const& a, string const& b ) const;
-
-  RINGING_ULLONG possible_matches
-    ( unsigned int bells, unsigned int pos, const string &s, int &q ) const;
-
   // Data members
   string pat;
   unsigned b;
-- 
2.43.0


From 61d9fe8a1e12d0ef6bfc1f69411bb75cce27f7ba Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 046/174] fix: litelib: do not read before the start of an
 empty name

---
 ringing/litelib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 8ed37b6..95cb1d7 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -135,7 +135,7 @@ string litelib::impl::entry_type::name() const
 static void trim_trailing_whitespace( string &line )
 {
   string::iterator b( line.begin() ), j( line.end() );
-  while ( j-1 != b && isspace(*(j-1)) ) --j;
+  while ( j != b && isspace(*(j-1)) ) --j;
   line = string( b, j );
 }
 
-- 
2.43.0


From 0f94d3e0c89b2dd12b4ca84d6b51c2a3be9995e3 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 047/174] fix: litelib: strip a class or stage from the end of
 a name that also contains it earlier

---
 ringing/litelib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 95cb1d7..728788c 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -141,7 +141,7 @@ static void trim_trailing_whitespace( string &line )
 
 static bool remove_suffix( string& n, string const& suffix )
 {
-  string::size_type i = n.find(suffix);
+  string::size_type i = n.rfind(suffix);
   if ( i != string::npos && i == n.length() - suffix.length() ) {
     n.erase(i); trim_trailing_whitespace(n);
     return true;
-- 
2.43.0


From 0c497de0e10ef5aeec8aeaa45462de9e4e05622c Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 048/174] fix: litelib: skip the byte order mark each time a
 file is read

---
 ringing/litelib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 728788c..6479c7f 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -215,6 +215,7 @@ library_base::const_iterator litelib::impl::begin() const
   if (f_owner) {
     f_owner->clear();
     f_owner->seekg(0, ios::beg);
+    const_cast< litelib::impl * >(this)->skip_bom();
   }
   return const_iterator(const_cast< litelib::impl * >(this),
                         new entry_type(b, flags));
-- 
2.43.0


From f18ec7911bcfb0afcf9de803372aac0219ae2566 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 049/174] fix: mslib: use the number of bells in the file name
 when there is no header

---
 ringing/mslib.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ringing/mslib.cpp b/ringing/mslib.cpp
index d332c53..3ef0602 100644
--- a/ringing/mslib.cpp
+++ b/ringing/mslib.cpp
@@ -97,7 +97,7 @@ class mslib::impl::entry_type : public library_entry::impl
 
   // Helper functions
   friend class mslib::impl;
-  entry_type();
+  explicit entry_type(int b);
   virtual ~entry_type() { };
   virtual bool readentry( library_base &lb );
   virtual library_entry::impl *clone() const { return new entry_type(*this); }
@@ -116,11 +116,11 @@ library::const_iterator mslib::impl::begin() const
   ifs->clear();
   ifs->seekg(0, ios::beg);
   return const_iterator( const_cast< mslib::impl * >(this), 
-			 new mslib::impl::entry_type );
+			 new mslib::impl::entry_type(b) );
 }
 
-mslib::impl::entry_type::entry_type()
-  : b(0)
+mslib::impl::entry_type::entry_type(int b)
+  : b(b)
 {}
 
 bool mslib::impl::entry_type::readentry( library_base &lb )
@@ -239,7 +239,7 @@ static int extractNumber(const string &filename)
 
 
 mslib::impl::impl(const string& filename) 
-  : f(filename.c_str()), wr(0), _good(0)
+  : f(filename.c_str()), b(0), wr(0), _good(0)
 {
   // Open file. Not going to bother to see if it's writeable as the
   // save function is not currently planned to be implemented.
-- 
2.43.0


From 31338b1dc17bd54ef20f60e1d91e05703c4ee181 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 050/174] fix: cclib: report a first handbell peal when the
 table has no tower bell column

---
 ringing/cclib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/cclib.cpp b/ringing/cclib.cpp
index 3c1ed92..b8bfc49 100644
--- a/ringing/cclib.cpp
+++ b/ringing/cclib.cpp
@@ -413,7 +413,7 @@ bool cclib::impl::entry_type::has_facet( const library_facet_id& id ) const
     return tower_date != string::npos && bool( get_facet( id ) );
   
   else if ( id == first_hand_peal::id ) 
-    return tower_end != string::npos && bool( get_facet( id ) );
+    return hand_date != string::npos && bool( get_facet( id ) );
 
   else if ( id == rw_ref::id ) 
     return rw_start != string::npos && bool( get_facet( id ) );
-- 
2.43.0


From bec09c6c085b630ac804588c2f63d24cf33d578b Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 051/174] fix: cclib: take the reference of a wrapped entry
 from its first line

---
 ringing/cclib.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/cclib.cpp b/ringing/cclib.cpp
index b8bfc49..8f7151d 100644
--- a/ringing/cclib.cpp
+++ b/ringing/cclib.cpp
@@ -431,7 +431,8 @@ cclib::impl::entry_type::get_facet( const library_facet_id& id ) const
   shared_pointer< library_facet_base > result;
 
   if ( id == cclib::ref::id ) 
-    result.reset( new cclib::ref( atoi( linebuf.c_str() ) ) );
+    result.reset( new cclib::ref
+      ( atoi( ( wrapped_name.empty() ? linebuf : wrapped_name ).c_str() ) ) );
 
   else if ( id == first_tower_peal::id ) {
     peal p( read_peal( tower_date, tower_place, tower_end ) );
-- 
2.43.0


From 7d682d2a3c362433beec834c7483f1f8f4dfda85 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 052/174] fix: cclib: strip the class of the table from base
 names

---
 ringing/cclib.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ringing/cclib.cpp b/ringing/cclib.cpp
index 8f7151d..aa122b3 100644
--- a/ringing/cclib.cpp
+++ b/ringing/cclib.cpp
@@ -499,6 +499,9 @@ string cclib::impl::entry_type::base_name() const
   if(block)
     maybe_strip_class( newname, "Block" );
 
+  if(main_class)
+    maybe_strip_class( newname, method::classname( main_class ) );
+
   if(plain)
     maybe_strip_class( newname, method::classname( method::M_BOB ) ) ||
       maybe_strip_class( newname, method::classname( method::M_PLACE ) ) ||
-- 
2.43.0


From 84db0e078fb625489376e2114a4231ee19291694 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 053/174] fix: cclib: forget that an earlier table held plain
 methods

---
 ringing/cclib.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ringing/cclib.cpp b/ringing/cclib.cpp
index aa122b3..c65b1f8 100644
--- a/ringing/cclib.cpp
+++ b/ringing/cclib.cpp
@@ -242,6 +242,8 @@ bool cclib::impl::entry_type::readentry( library_base &lb )
 
 void cclib::impl::entry_type::parse_title()
 {
+  plain = false;
+
   // True if it's a method, false if it's a principle
   bool meth( linebuf.find( "methods" ) != string::npos );
   bool prin( linebuf.find( "principles" ) != string::npos );
-- 
2.43.0


From 5c77a1b8abeb805ab6fb34bc6b788feed5bf85a5 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:13:23 +0000
Subject: [PATCH 054/174] fix: litelib: a library is still good after it has
 been read to the end

---
 ringing/litelib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 6479c7f..7c6411b 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -59,7 +59,7 @@ public:
 private:
   void skip_bom();
 
-  virtual bool good(void) const { return bool(f); }
+  virtual bool good(void) const { return ok; }
 
 private:
   int b;
-- 
2.43.0


From 55fde2314a5ec929178256bd7e80698a9bd40b5d Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:13:23 +0000
Subject: [PATCH 055/174] fix: litelib: ignore blank lines in files with
 carriage returns

---
 ringing/litelib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 7c6411b..a3f3fb9 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -183,7 +183,7 @@ bool litelib::impl::entry_type::readentry( library_base &lb )
     getline( ifs, linebuf );
 
     if (ifs) {
-      linestart = linebuf.find_first_not_of(" \t");
+      linestart = linebuf.find_first_not_of(" \t\r\n");
       if (linestart != string::npos) {
         int line_bells = read_bells();
         if (req_bells == 0 && line_bells) {
-- 
2.43.0


From 21ed0755fc119d3cebf25fad17cfe4cfb52fb08b Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 056/174] fix: mslib: a dot in a directory name does not start
 the extension

---
 ringing/mslib.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ringing/mslib.cpp b/ringing/mslib.cpp
index 3ef0602..1483e79 100644
--- a/ringing/mslib.cpp
+++ b/ringing/mslib.cpp
@@ -230,7 +230,9 @@ static int extractNumber(const string &filename)
   // Is there a '.'? e.g. '.txt', if so account for it
   // We want the last one so that a filename like
   // ../libraries/surprise8.txt works.
-  string subname(filename, 0, filename.find_last_of('.'));
+  string::size_type dot = filename.find_last_of("./");
+  if ( dot != string::npos && filename[dot] != '.' ) dot = string::npos;
+  string subname(filename, 0, dot);
 
   // now start to reverse from last.
   for(s = subname.end(); s > subname.begin() && isdigit(s[-1]); s--);
-- 
2.43.0


From 33fbc98a7120c43fa725a5276f095940c7b1458c Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 057/174] fix: litelib: strip the whole of Treble Bob and
 Treble Place from names

---
 ringing/litelib.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index a3f3fb9..f644310 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -153,7 +153,10 @@ string litelib::impl::entry_type::base_name() const
 {
   string n = name();
   if ( remove_suffix( n, method::stagename(b) ) ) {
-    bool had_class = false;
+    // Before the loop, as they end with the names of other classes
+    bool had_class 
+      = remove_suffix( n, method::classname( method::M_TREBLE_BOB ) )
+        || remove_suffix( n, method::classname( method::M_TREBLE_PLACE ) );
     for ( method::m_class c = method::M_BOB; 
             c <= method::M_SLOW_COURSE && !had_class;  
             c = (method::m_class)( (int)c + 1 ) )
-- 
2.43.0


From df1abb39f0a79afa6123ed15791ab2ed6136cb91 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 058/174] fix: xmlout: write to the standard output when given
 no file name

---
 ringing/dom_gdome.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ringing/dom_gdome.cpp b/ringing/dom_gdome.cpp
index 9b195dd..9134b52 100644
--- a/ringing/dom_gdome.cpp
+++ b/ringing/dom_gdome.cpp
@@ -162,7 +162,9 @@ dom_document::dom_document( string const& filename, io mode, filetype type )
   pimpl->domimpl = gdome_di_mkref();
 
   if (mode == out) {
-    pimpl->ofilename = gdome_str_mkref_dup(filename.c_str());
+    // libxml2 uses "-" to mean the standard output
+    pimpl->ofilename = gdome_str_mkref_dup
+      ( type == stdio ? "-" : filename.c_str() );
   }
   else if (mode == in) {
     // We want errors by exceptions because otherwise they're 
-- 
2.43.0


From aa9e4581cf91bc8b5105ed00d2a700fe431c20ca Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 059/174] fix: xmllib: read the text in CDATA sections

---
 ringing/dom_gdome.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/dom_gdome.cpp b/ringing/dom_gdome.cpp
index 9134b52..36229f2 100644
--- a/ringing/dom_gdome.cpp
+++ b/ringing/dom_gdome.cpp
@@ -261,7 +261,8 @@ string dom_element::get_content() const
     = gdome_n_firstChild( GDOME_N(pimpl->elt), &pimpl->exc );
 
   while (t) {
-    if ( gdome_n_nodeType(t, &pimpl->exc) == GDOME_TEXT_NODE )
+    if ( gdome_n_nodeType(t, &pimpl->exc) == GDOME_TEXT_NODE ||
+         gdome_n_nodeType(t, &pimpl->exc) == GDOME_CDATA_SECTION_NODE )
       value += TRANSCODE_I( gdome_cd_data( GDOME_CD(t), &pimpl->exc ) );
 
     GdomeNode* next = gdome_n_nextSibling( t, &pimpl->exc );
-- 
2.43.0


From 63fba365d1bd25d568b08dbbb429cde0df595e42 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 060/174] fix: xmllib: read the location of a peal from the
 peal

---
 ringing/xmllib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/xmllib.cpp b/ringing/xmllib.cpp
index 383033d..16a90f8 100644
--- a/ringing/xmllib.cpp
+++ b/ringing/xmllib.cpp
@@ -158,7 +158,7 @@ peal xmllib::impl::entry_type::get_peal( const string& name ) const
 
   string loc;
 
-  dom_element l = next_sibling_element( meth.get_first_child(), "location" );
+  dom_element l = next_sibling_element( e.get_first_child(), "location" );
   if ( l ) {
     // TODO: The peal object should know about the different 
     // parts of a location
-- 
2.43.0


From 5af4d72ab4b29dfc12b9900d37822f25b231e03a Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 061/174] fix: xmllib: return a first handbell peal as that
 kind of facet

---
 ringing/xmllib.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ringing/xmllib.cpp b/ringing/xmllib.cpp
index 16a90f8..b5dafe1 100644
--- a/ringing/xmllib.cpp
+++ b/ringing/xmllib.cpp
@@ -353,8 +353,12 @@ xmllib::impl::entry_type::get_facet( const library_facet_id& id ) const
   string elt( facet_elt(id) );
 
   if (elt.size()) {
-    if ( next_sibling_element( meth.get_first_child(), elt ) ) 
-      result.reset( new first_tower_peal( get_peal(elt) ) );
+    if ( next_sibling_element( meth.get_first_child(), elt ) ) {
+      if ( id == first_tower_peal::id )
+        result.reset( new first_tower_peal( get_peal(elt) ) );
+      else
+        result.reset( new first_hand_peal( get_peal(elt) ) );
+    }
   }
 
   return result;
-- 
2.43.0


From 82ade58c21633c00856bcf7f82174725e6d1509a Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 062/174] fix: xmllib: do not crash on a collection with no
 method sets

---
 ringing/xmllib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/xmllib.cpp b/ringing/xmllib.cpp
index b5dafe1..2282a66 100644
--- a/ringing/xmllib.cpp
+++ b/ringing/xmllib.cpp
@@ -309,6 +309,7 @@ bool xmllib::impl::entry_type::readentry( library_base& lb )
   else if (cc_xml) {
     methset = next_sibling_element( doc->get_document().get_first_child(),
                                     "methodSet" );
+    if (!methset) return false;
     meth = methset.get_first_child();
   }
   else
-- 
2.43.0


From 7b1fe4f18ac13fa2e71c6cc03edf3e2af241474b Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 063/174] fix: cclib: give place notation without the blanks
 between the columns

---
 ringing/cclib.cpp | 48 +++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/ringing/cclib.cpp b/ringing/cclib.cpp
index c65b1f8..c8e18ae 100644
--- a/ringing/cclib.cpp
+++ b/ringing/cclib.cpp
@@ -518,6 +518,20 @@ string cclib::impl::entry_type::base_name() const
   return newname;
 }
 
+// Append the text of a column without the blanks that pad it, which are 
+// all that separates it from the last change of the previous column.
+static void append_column( string& pn, string const& linebuf,
+                           string::size_type start, string::size_type end )
+{
+  while ( start < end && isspace( linebuf[start] ) ) ++start;
+  while ( start < end && isspace( linebuf[end-1] ) ) --end;
+  if ( start == end ) return;
+
+  if ( pn.size() && isalnum( pn[pn.size()-1] ) && isalnum( linebuf[start] ) )
+    pn.append(".");
+  pn.append( linebuf, start, end - start );
+}
+
 string cclib::impl::entry_type::pn() const
 {
   string pn;
@@ -528,12 +542,12 @@ string cclib::impl::entry_type::pn() const
       // We have a reflection
       pn.append("&");
       // Add place notation
-      pn.append(linebuf.substr(meth_name_ends, meth_hl - meth_name_ends));
+      append_column( pn, linebuf, meth_name_ends, meth_hl );
       // Add half lead notation
-      pn.append(linebuf.substr(meth_hl, meth_le - meth_hl));
+      append_column( pn, linebuf, meth_hl, meth_le );
       // And the lead head change
       pn.append(",");
-      pn.append(linebuf.substr(meth_le, meth_lh - meth_le));
+      append_column( pn, linebuf, meth_le, meth_lh );
     }
 
   else if (meth_hl != string::npos)
@@ -544,33 +558,31 @@ string cclib::impl::entry_type::pn() const
       // As an example, for Grandsire Doubles we return "3,&1.5.1.5.1".
       // This is not a very standard form, but it works fine in our place 
       // notation handling code.
-      switch ( linebuf[meth_name_ends] )
+      string::size_type i( meth_name_ends );
+      switch ( linebuf[i] )
 	{
 	case 'X': case 'x': case '-':
-	  pn.append( "-,&" );
-	  pn.append( linebuf.substr( meth_name_ends+1, 
-				     meth_lh - meth_name_ends - 1 ) );
+	  pn.append( "-" );
+	  ++i;
 	  break;
 
 	default:
-	  {
-	    string::const_iterator i( linebuf.begin() + meth_name_ends );
-	    string::const_iterator j(i), e( linebuf.begin() + meth_lh );
-
-	    while ( j < e && isalnum(*j) && *j != 'X' && *j != 'x') 
-	      ++j;
+	  while ( i < meth_lh && isalnum(linebuf[i]) 
+		  && linebuf[i] != 'X' && linebuf[i] != 'x' ) 
+	    ++i;
 
-	    pn.append( i, j );
-	    pn.append( ",&" );
-	    pn.append( j, e );
-	  }
+	  pn.append( linebuf, meth_name_ends, i - meth_name_ends );
 	}
+
+      pn.append( ",&" );
+      append_column( pn, linebuf, i, meth_hl );
+      append_column( pn, linebuf, max( i, meth_hl ), meth_lh );
     }
 
   else
     {
       // This is for the non-reflecting irregular methods.
-      pn.append( linebuf.substr(meth_name_ends, meth_lh - meth_name_ends) );
+      append_column( pn, linebuf, meth_name_ends, meth_lh );
     }
 
   return pn;
-- 
2.43.0


From 78fbbb2011e9a7cff1509f0c892f6ac9695a5ce1 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 064/174] fix: gsiril: make the arithmetic operators left
 associative

---
 apps/gsiril/parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/gsiril/parser.cpp b/apps/gsiril/parser.cpp
index 3414319..4a826e4 100644
--- a/apps/gsiril/parser.cpp
+++ b/apps/gsiril/parser.cpp
@@ -835,11 +835,11 @@ msparser::make_expr( vector< token >::const_iterator first,
           ? replacement_node::end : replacement_node::begin ) );
   }
 
-  // Addition operators are next
+  // Addition operators are next.  They are left associative.
   vector<tok_types::enum_t> addops;
   addops.push_back( tok_types::plus );
   addops.push_back( tok_types::minus );
-  if ( find_one_of( first, last, addops, split ) ) {
+  if ( find_one_of( first, last, addops, split, find_last ) ) {
     if ( split->type() == tok_types::plus ) {
       check_bin_op( first, split, last, "+" );
       return expression( new add_node( make_expr( first, split ),
@@ -851,13 +851,13 @@ msparser::make_expr( vector< token >::const_iterator first,
     }
   }
 
-  // Now multiplication operators: currently only % and .
+  // Now multiplication operators, which are also left associative.
   vector<tok_types::enum_t> multops;
   multops.push_back( tok_types::times );
   multops.push_back( tok_types::append );
   multops.push_back( tok_types::divide );
   multops.push_back( tok_types::modulo );
-  if ( find_one_of( first, last, multops, split ) ) {
+  if ( find_one_of( first, last, multops, split, find_last ) ) {
     switch ( split->type() ) {
       case tok_types::modulo:
         check_bin_op( first, split, last, "%" );
-- 
2.43.0


From ea440fd7113a8b0eb706ed6be6f7d99a63c93424 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 065/174] fix: gsiril: read the upper end of the range in a
 rows statement

---
 apps/gsiril/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/parser.cpp b/apps/gsiril/parser.cpp
index 4a826e4..1fe3d42 100644
--- a/apps/gsiril/parser.cpp
+++ b/apps/gsiril/parser.cpp
@@ -401,7 +401,7 @@ statement msparser::parse_command( vector<token> const& cmd ) {
        && cmd[2].type() == tok_types::num_lit
        && cmd[3].type() == tok_types::name && cmd[3] == "rows" )
     return statement( new rows_stmt( string_to_int(cmd[0]),
-                                     string_to_int(cmd[1]) ) );
+                                     string_to_int(cmd[2]) ) );
 
   // Rounds directive
   if ( cmd.size() == 2 && cmd[0].type() == tok_types::name 
-- 
2.43.0


From 9ae2f290d15588c3f6b1fd865fcf7704d0135635 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 066/174] fix: gsiril: let the at function give the bell in the
 last place

---
 apps/gsiril/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/functions.cpp b/apps/gsiril/functions.cpp
index 608c858..21102d5 100644
--- a/apps/gsiril/functions.cpp
+++ b/apps/gsiril/functions.cpp
@@ -46,7 +46,7 @@ class at_fn_impl : public fnnode {
     if (args.size() != 1)
       throw runtime_error("The at function takes one argument");
     int idx = args[0].int_evaluate(ctx);
-    if (idx < 1 || idx >= ctx.bells())
+    if (idx < 1 || idx > ctx.bells())
       throw runtime_error("Argument out of range in at function");
     row const& r = ctx.current_row();
     int rv = idx > r.bells() ? idx : r[idx-1]+1;
-- 
2.43.0


From b99993bbdde5d8ee89ea02e0d3a2eee41c8f1790 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 067/174] fix: gsiril: make the crus function match combination
 roll-ups, not runs

---
 apps/gsiril/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/functions.cpp b/apps/gsiril/functions.cpp
index 21102d5..f7038b6 100644
--- a/apps/gsiril/functions.cpp
+++ b/apps/gsiril/functions.cpp
@@ -258,7 +258,7 @@ void register_functions( execution_context& ectx )
   ectx.define_symbol( pair< const string, expression >
     ( "backruns", expression( new runs_impl( music::at_back ) ) ) );
   ectx.define_symbol( pair< const string, expression >
-    ( "crus", expression( new runs_impl ) ) );
+    ( "crus", expression( new crus_impl ) ) );
   ectx.define_symbol( pair< const string, expression >
     ( "methname", expression( new methname_impl ) ) );
   ectx.define_symbol( pair< const string, expression >
-- 
2.43.0


From 82757cf73abaea951a16c0be41b9134258b019c0 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 068/174] fix: gsiril: report division by zero instead of
 crashing

---
 apps/gsiril/expression.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/gsiril/expression.cpp b/apps/gsiril/expression.cpp
index b6e4236..c960e2c 100644
--- a/apps/gsiril/expression.cpp
+++ b/apps/gsiril/expression.cpp
@@ -819,6 +819,8 @@ void mod_node::debug_print( ostream &os ) const
 RINGING_LLONG mod_node::int_evaluate( proof_context& ctx ) const
 {
   RINGING_LLONG l = left.int_evaluate(ctx), r = right.int_evaluate(ctx);
+  if ( r == 0 ) 
+    throw runtime_error( "Division by zero" );
   return l % r;
 }
 
@@ -832,6 +834,8 @@ void div_node::debug_print( ostream &os ) const
 RINGING_LLONG div_node::int_evaluate( proof_context& ctx ) const
 {
   RINGING_LLONG l = left.int_evaluate(ctx), r = right.int_evaluate(ctx);
+  if ( r == 0 ) 
+    throw runtime_error( "Division by zero" );
   return l / r;
 }
 
-- 
2.43.0


From b85351171a53a85d6ea205d36f8f490ce19226e4 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 069/174] fix: gsiril: expand escapes in the strings of echo
 statements

---
 apps/gsiril/statement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/statement.cpp b/apps/gsiril/statement.cpp
index 32b8b5e..36b36d3 100644
--- a/apps/gsiril/statement.cpp
+++ b/apps/gsiril/statement.cpp
@@ -266,7 +266,7 @@ void echo_stmt::execute( execution_context& e )
   string str( expr.string_evaluate(p, &no_nl) );
 
   ostream& os = mode == echo ? e.output() : cerr;
-  os << str;
+  os << p.string_escapes(str);
   if (!no_nl) os << '\n';
 
   if ( mode == error ) {
-- 
2.43.0


From 06499d559b1dc557b3186f02ea80db7da90f3a31 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 070/174] fix: gsiril: honour a suppressed new line at the end
 of a list of strings

---
 apps/gsiril/expression.cpp | 6 ++++++
 apps/gsiril/expression.h   | 1 +
 2 files changed, 7 insertions(+)

diff --git a/apps/gsiril/expression.cpp b/apps/gsiril/expression.cpp
index c960e2c..9ce9128 100644
--- a/apps/gsiril/expression.cpp
+++ b/apps/gsiril/expression.cpp
@@ -76,6 +76,12 @@ string list_node::string_evaluate( proof_context &ctx ) const
   return cdr.string_evaluate( ctx );
 }
 
+string list_node::string_evaluate( proof_context &ctx, bool *no_nl ) const
+{
+  car.execute( ctx, +1 );
+  return cdr.string_evaluate( ctx, no_nl );
+}
+
 vector<change> list_node::pn_evaluate( proof_context &ctx ) const 
 {
   vector<change> ret( car.pn_evaluate(ctx) );
diff --git a/apps/gsiril/expression.h b/apps/gsiril/expression.h
index 95e3383..87fb4c1 100644
--- a/apps/gsiril/expression.h
+++ b/apps/gsiril/expression.h
@@ -52,6 +52,7 @@ protected:
   virtual bool bool_evaluate( proof_context &ctx ) const;
   virtual RINGING_LLONG int_evaluate( proof_context &ctx ) const;
   virtual string string_evaluate( proof_context &ctx ) const;
+  virtual string string_evaluate( proof_context &ctx, bool *no_nl ) const;
   virtual vector<change> pn_evaluate( proof_context &ctx ) const;
   virtual expression::type_t type( proof_context &ctx ) const;
 
-- 
2.43.0


From a90aa251853e000823be1b48f55383ce26560909 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 071/174] fix: gsiril: define the expected length's limits when
 only one is given

---
 apps/gsiril/execution_context.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/apps/gsiril/execution_context.cpp b/apps/gsiril/execution_context.cpp
index c10ec4d..4a9a03c 100644
--- a/apps/gsiril/execution_context.cpp
+++ b/apps/gsiril/execution_context.cpp
@@ -71,18 +71,19 @@ execution_context::expected_length( pair<size_t, size_t> l )
 { 
   // Define min_length and max_length so they can be referenced by 
   // tooshort and toolong, respectively.
-  if (l.first && l.second) {
+  if (l.first)
     sym_table.define
       ( pair<const string, expression>( "min_length", 
           expression( new integer_node(l.first) ) ) );
+  else
+    sym_table.undefine("min_length");
+
+  if (l.second)
     sym_table.define
       ( pair<const string, expression>( "max_length", 
           expression( new integer_node(l.second) ) ) );
-  }
-  else {
-    sym_table.undefine("min_length");
+  else
     sym_table.undefine("max_length");
-  }
 
   swap( l, args.expected_length ); 
   return l;
-- 
2.43.0


From bc11c3b6dc76ef19db0e634cbf78d3d46f29333a Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 072/174] fix: gsiril: allow a rounds statement to leave out
 bells at the back

---
 apps/gsiril/execution_context.cpp | 9 +++++++++
 apps/gsiril/execution_context.h   | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/apps/gsiril/execution_context.cpp b/apps/gsiril/execution_context.cpp
index 4a9a03c..832bd65 100644
--- a/apps/gsiril/execution_context.cpp
+++ b/apps/gsiril/execution_context.cpp
@@ -48,6 +48,15 @@ int execution_context::bells( int b )
   return b;
 }
 
+row execution_context::rounds( row r )
+{
+  // A row literal need not include the bells which are in their own places
+  if ( r.bells() < bells() ) r *= row( bells() );
+
+  swap( r, args.rounds );
+  return r;
+}
+
 void execution_context::row_mask(music_details const& m) { 
   rmask = m; 
   define_line();
diff --git a/apps/gsiril/execution_context.h b/apps/gsiril/execution_context.h
index b59db98..525d0fa 100644
--- a/apps/gsiril/execution_context.h
+++ b/apps/gsiril/execution_context.h
@@ -80,7 +80,7 @@ public:
   bool verbose( bool v ) { swap(v, args.verbose.get()); return v; }
   bool verbose() const   { return args.verbose; }
 
-  row rounds( row r ) { swap(r, args.rounds); return r; }
+  row rounds( row r );
   row rounds() const { return args.rounds; }
 
   const arguments& get_args() const { return args; }
-- 
2.43.0


From 10dca84f138d69506422e058d0d1e2bfea0fddd0 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 073/174] fix: gsiril: print nothing for a row which does not
 match the row mask

---
 apps/gsiril/proof_context.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apps/gsiril/proof_context.cpp b/apps/gsiril/proof_context.cpp
index f910877..a2b2cec 100644
--- a/apps/gsiril/proof_context.cpp
+++ b/apps/gsiril/proof_context.cpp
@@ -322,7 +322,10 @@ string proof_context::substitute_string( const string &str,
                  i != e; ++i) 
             os.out_stream() << ectx.get_args().bellfmt << *i;
         }
-        else return string();
+        else {
+          if (no_nl) *no_nl = true;
+          return string();
+        }
 	break;
       case '$':
         // ${..} is disabled in MicroSiril syntax because it would be 
-- 
2.43.0


From df5ee88a2c75a15634e38de71df119845ab5e0e7 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 074/174] fix: gsiril: count each node once so that odd node
 limits are enforced

---
 apps/gsiril/execution_context.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/apps/gsiril/execution_context.cpp b/apps/gsiril/execution_context.cpp
index 832bd65..f177901 100644
--- a/apps/gsiril/execution_context.cpp
+++ b/apps/gsiril/execution_context.cpp
@@ -158,7 +158,6 @@ bool execution_context::define_symbol( const pair< const string, expression > &d
 
 void execution_context::increment_node_count() const
 {
-  ++node_count;
   if (++node_count == args.node_limit)
     throw runtime_error("Node count exceeded");
 }
-- 
2.43.0


From 1b231ea6bf1b5d8d8a7f7ebfab0f55b10ef3bf91 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Thu, 19 Nov 2026 23:51:38 +0000
Subject: [PATCH 075/174] fix: gsiril: report a conflict only for rows which
 are repeated too often

---
 apps/gsiril/proof_context.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/gsiril/proof_context.cpp b/apps/gsiril/proof_context.cpp
index a2b2cec..73c5081 100644
--- a/apps/gsiril/proof_context.cpp
+++ b/apps/gsiril/proof_context.cpp
@@ -131,7 +131,9 @@ bool proof_context::permute_and_prove_t::operator()( const row &c )
 bool proof_context::permute_and_prove_t::prove() 
 {
   if ( !pctx.is_proving() ) return true;
-  bool rv = p.add_row(r); 
+  // The prover says whether the touch so far is true, but this needs to know
+  // whether this row is what has made it false.
+  bool rv = p.add_row(r) || int( p.count_row(r) ) <= pctx.ectx.extents();
   mus.process_row(r, backstroke);
   backstroke = !backstroke;
   pctx.execute_everyrow();
-- 
2.43.0


From c4b329a6d717085e25971d6588d4e14c8bb0116c Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 01:03:26 +0000
Subject: [PATCH 076/174] fix: gsiril: let -P prove the first symbol as it is
 finally defined

The guide describes __first__ as naming the symbol which was defined
first, but it kept that symbol's first value, so a redefinition later in
the input was ignored.
---
 apps/gsiril/execution_context.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/gsiril/execution_context.cpp b/apps/gsiril/execution_context.cpp
index f177901..756d175 100644
--- a/apps/gsiril/execution_context.cpp
+++ b/apps/gsiril/execution_context.cpp
@@ -141,7 +141,8 @@ bool execution_context::default_define_symbol( const pair< const string, express
 
   if ( sym_table.lookup( "__first__" ).isnull() )
     sym_table.define
-      ( pair<const string, expression>( "__first__", defn.second ) );
+      ( pair<const string, expression>
+          ( "__first__", expression( new symbol_node(defn.first) ) ) );
   return true;
 }
 
@@ -152,7 +153,8 @@ bool execution_context::define_symbol( const pair< const string, expression > &d
 
   if ( sym_table.lookup( "__first__" ).isnull() )
     sym_table.define
-      ( pair<const string, expression>( "__first__", defn.second ) );
+      ( pair<const string, expression>
+          ( "__first__", expression( new symbol_node(defn.first) ) ) );
   return false;
 }
 
-- 
2.43.0


From 25f2f9382d3ba6bc54ef242c6e11832496ee8f08 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 01:06:43 +0000
Subject: [PATCH 077/174] fix: gsiril: let a false touch in a -m module decide
 the exit status

A module named with -m is meant to behave just as if it had been
imported, but the failure of any touch it proved was forgotten.
---
 apps/gsiril/main.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/apps/gsiril/main.cpp b/apps/gsiril/main.cpp
index 46390a4..d0aff21 100644
--- a/apps/gsiril/main.cpp
+++ b/apps/gsiril/main.cpp
@@ -194,8 +194,6 @@ void prove_first_symbol( execution_context& e, const arguments& args )
 bool prove_stream( execution_context& e, scoped_pointer<istream> const& in, 
                    string const& filename, const arguments& args )
 {
-  e.set_failure(false); // unset failure state
-
   // IN is null if -N is used without -e or -f
   bool read_anything 
     = ( !in || make_default_parser(*in, e)
@@ -286,6 +284,7 @@ void filter( execution_context& e, const arguments& args )
                      expression( new string_node
                                    ( i->get_facet<litelib::payload>() ) ) ) );
 
+    e.set_failure(false); // unset failure state
     if ( run( e, args ) )
        // Add M_PLUS in case our output is being fed back as a definition.
        cout << i->meth().format( method::M_DASH | method::M_SYMMETRY 
-- 
2.43.0


From 4bbe40734024c96404169fbaa63dae0f3da995f2 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 01:07:44 +0000
Subject: [PATCH 078/174] fix: gsiril: restore the number of bells after a -m
 module

A module named with -m is meant to behave just as if it had been
imported, which leaves the number of bells as it was.
---
 apps/gsiril/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/gsiril/main.cpp b/apps/gsiril/main.cpp
index d0aff21..f0e20c2 100644
--- a/apps/gsiril/main.cpp
+++ b/apps/gsiril/main.cpp
@@ -141,7 +141,9 @@ void initialise( execution_context& ex, const arguments& args )
 	throw runtime_error
 	  ( make_string() << "Unable to find module: " << *i );
 
+      int const bells = ex.bells();
       make_default_parser(*in, ex)->run(ex, *i, parser::fatal);
+      if (bells > 0) ex.bells(bells); // as an import statement would
     }
     
   // The 'everyrow' symbol is defined to "@" if -E is specified.
-- 
2.43.0


From c5f836e896593166de6f59554e60b08436c22b04 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 079/174] fix: methsearch: prove the leads of -P methods like
 any others

---
 apps/methsearch/search.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 9a5b083..2135c39 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -169,8 +169,7 @@ void searcher::reset()
   if (maintain_r) 
     r = args.pends.rcoset_label( args.start_row );
 
-  if ( args.true_lead && ( !args.sym ||  
-         args.treble_dodges && !args.same_place_parity )  ||
+  if ( args.true_lead && ( !args.sym || args.treble_dodges )  ||
        args.true_half_lead && ( args.pends.size() > 1 ||
          args.hunt_bells == 0 || args.treble_dodges > 1 ) ) 
   {
-- 
2.43.0


From 8731eb9c667b9c2857374f931c8068488eefc36a Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 080/174] fix: methsearch: find the lead-end change whatever
 the length of a division

---
 apps/methsearch/search.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 2135c39..ca5ff47 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -683,6 +683,10 @@ inline int searcher::get_posn() const
 
   const size_t depth = m.length();
 
+  // The lead-end change
+  if ( depth == lead_len - 1 )
+    return args.treble_front - 2;
+
   // Reflect about the half-lead:
   size_t posn = depth >= lead_len/2 ? lead_len - depth - 2 : depth;
   
-- 
2.43.0


From a112de91c92930e237b5363b7f592157dddb2d20 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 01:29:45 +0000
Subject: [PATCH 081/174] fix: methsearch: check -P in divisions completed by
 rotational symmetry

---
 apps/methsearch/search.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index ca5ff47..ca756c1 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -488,6 +488,16 @@ bool searcher::is_acceptable_method()
       if (!ok) return false;
     }
 
+  // The division containing the rotational symmetry point is completed by
+  // copying changes, so it won't have been checked in try_midlead_change.
+  if ( args.same_place_parity && args.skewsym && div_len > 4 )
+    for ( size_t i = 0; i < m.size(); i += div_len ) {
+      vector<change> const d( m.begin() + i, m.begin() + i + div_len - 2 );
+      if ( division_bad_parity_hack( method(d), m[i + div_len - 2],
+                                     0, div_len ) )
+        return false;
+    }
+
   // TODO: We should be able to prune the search space as well
   if ( args.no_points && has_points(m) ||
        args.has_points && !has_points(m) ||
-- 
2.43.0


From e02992f94f93ff10099ac6004d805de29c76fc39 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 01:29:54 +0000
Subject: [PATCH 082/174] fix: methsearch: apply -p to places completed by
 symmetry

---
 apps/methsearch/methodutils.cpp | 16 ++++++++++++++++
 apps/methsearch/methodutils.h   |  2 ++
 apps/methsearch/search.cpp      |  6 ++++++
 3 files changed, 24 insertions(+)

diff --git a/apps/methsearch/methodutils.cpp b/apps/methsearch/methodutils.cpp
index 332fdbf..749bd48 100644
--- a/apps/methsearch/methodutils.cpp
+++ b/apps/methsearch/methodutils.cpp
@@ -100,6 +100,22 @@ bool is_too_many_places( const method &m, const change &c, size_t max,
   return false;
 }
 
+bool has_long_place( const method &m, size_t max )
+{
+  // Go round more than once so as to handle the lead end, and also places
+  // made throughout the lead which continue indefinitely.
+  for ( int i=0; i<m.bells(); ++i ) {
+    size_t count(1u);
+    for ( size_t j=0; j < 2*m.size() + max; ++j )
+      if ( !m[j % m.size()].findplace(i) )
+        count = 1u;
+      else if ( ++count > max )
+        return true;
+  }
+
+  return false;
+}
+
 bool has_consec_places( const change &c, size_t max_count )
 {
   size_t count(0);
diff --git a/apps/methsearch/methodutils.h b/apps/methsearch/methodutils.h
index 145afa5..6389557 100644
--- a/apps/methsearch/methodutils.h
+++ b/apps/methsearch/methodutils.h
@@ -46,6 +46,8 @@ bool is_division_false( const method &m, const change &c,
 bool is_too_many_places( const method &m, const change &c, size_t max,
                          size_t stopoff = (size_t)-1 );
 
+bool has_long_place( const method &m, size_t max );
+
 bool has_rotational_symmetry( const method &m );
 
 bool has_consec_places( const change &c, size_t max_count = 1u );
diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index ca756c1..62242e4 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -434,6 +434,12 @@ bool searcher::is_acceptable_method()
   if ( ! is_acceptable_leadhead( m.lh() ) )
     return false;
 
+  // The pruning done during the search doesn't catch long places that are
+  // completed by changes copied in order to make the method symmetric.
+  if ( args.max_consec_blows && !args.long_le_place &&
+       has_long_place( m, args.max_consec_blows ) )
+    return false;
+
   if ( args.floating_sym )
     if ( ! try_floating_symmetry() )
       return false;
-- 
2.43.0


From 48c80f41cfeec1240b9ab503082647ae578ca3ff Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 01:33:12 +0000
Subject: [PATCH 083/174] fix: methsearch: apply a mask to every change of a
 principle

parse_mask() used the alternatives for the first change at every later
position, so whatever a mask said about the rest of a principle was
ignored.
---
 apps/methsearch/mask.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 9d95256..848d0cd 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -817,15 +817,13 @@ bool parse_mask( arguments &args )
   assert( above.size() == size_t(lead_len) );
   assert( below.size() == size_t(lead_len) );
 
+  vector<change> any_change[2];
   for ( int i=0; i<lead_len; ++i ) {
-    // Don't recalculate for every place in a principle: this is very 
+    // Don't recalculate a '?' for every place in a principle: this is very 
     // inefficient when doing -IAU0 -Fx type filters.
-    if (args.hunt_bells 
-         || args.allowed_changes.size() < (args.right_place ? 2 : 1)) 
-      args.allowed_changes.push_back( vector<change>() );
-    else 
-      args.allowed_changes.push_back( 
-        args.allowed_changes[args.right_place ? i%2 : 0] );
+    bool const reusable = !args.hunt_bells && above[i].empty();
+    vector<change>& any = any_change[args.right_place ? i%2 : 0];
+    args.allowed_changes.push_back( reusable ? any : vector<change>() );
 
     vector<change>& changes_to_try = args.allowed_changes.back();
 
@@ -858,6 +856,8 @@ bool parse_mask( arguments &args )
       if ( changes_to_try.empty() )
         throw mask_error( make_string() << "No such method can exist: "
                           "There no possible changes at position " << i );
+
+      if ( reusable ) any = changes_to_try;
     }
   }
   return true;
-- 
2.43.0


From 20b89d0d60071cb20f8bc7f5e49ff1dcb9cff07c Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 01:34:11 +0000
Subject: [PATCH 084/174] fix: methsearch: check the rotational symmetry of
 short leads and principles

With -k, the search did not make leads of four changes or fewer symmetric,
and in principles it accepted any change at the symmetry point, thus listing
methods with no rotational symmetry.
---
 apps/methsearch/methodutils.cpp | 11 +++++++++++
 apps/methsearch/methodutils.h   |  3 +++
 apps/methsearch/search.cpp      | 13 +++++++++++--
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/methodutils.cpp b/apps/methsearch/methodutils.cpp
index 749bd48..0eec404 100644
--- a/apps/methsearch/methodutils.cpp
+++ b/apps/methsearch/methodutils.cpp
@@ -162,6 +162,17 @@ bool division_bad_parity_hack( const method &m, const change &c,
   return false; // OK
 }
 
+bool has_rotational_symmetry( const method &m, size_t axis )
+{
+  const size_t n( m.size() );
+
+  for ( size_t i=0; i<n; ++i )
+    if ( m[i] != m[ (n + axis - i) % n ].reverse() )
+      return false;
+
+  return true;
+}
+
 bool has_rotational_symmetry( const method &m )
 {
   const int n( m.size() );
diff --git a/apps/methsearch/methodutils.h b/apps/methsearch/methodutils.h
index 6389557..b9187e8 100644
--- a/apps/methsearch/methodutils.h
+++ b/apps/methsearch/methodutils.h
@@ -50,6 +50,9 @@ bool has_long_place( const method &m, size_t max );
 
 bool has_rotational_symmetry( const method &m );
 
+// Tests for rotational symmetry pairing m[i] with m[axis-i] 
+bool has_rotational_symmetry( const method &m, size_t axis );
+
 bool has_consec_places( const change &c, size_t max_count = 1u );
 bool division_bad_parity_hack( const method &m, const change &c, 
                                size_t div_start, size_t cur_div_len );
diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 62242e4..4a07ab9 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -441,8 +441,17 @@ bool searcher::is_acceptable_method()
     return false;
 
   if ( args.floating_sym )
-    if ( ! try_floating_symmetry() )
-      return false;
+    {
+      if ( ! try_floating_symmetry() )
+        return false;
+    }
+  // The search completes a method using whichever symmetry allows most to be
+  // copied, but with some leads (e.g. very short ones, and in principles)
+  // that leaves some of the rotational symmetry unchecked.
+  else if ( args.skewsym &&
+            !has_rotational_symmetry( m, lead_len + lead_len/2 - 2
+                                           + 2*sym_offset ) )
+    return false;
 
   if ( args.hunt_bells && args.require_offset_cyclic )
     {
-- 
2.43.0


From 0ed73be21824c5e06b2e7f9f0ceb629609e1b686 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 01:34:11 +0000
Subject: [PATCH 085/174] fix: methsearch: refuse -Fe where it is not
 implemented

It ended in an assertion failure for principles and little methods.
---
 apps/methsearch/prog_args.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/prog_args.cpp b/apps/methsearch/prog_args.cpp
index cee3a7c..d1cf886 100644
--- a/apps/methsearch/prog_args.cpp
+++ b/apps/methsearch/prog_args.cpp
@@ -677,7 +677,7 @@ bool arguments::validate( arg_parser &ap )
       return false;
     }
 
-  if ( (treble_dodges || hunt_bells > 1) && true_extent )
+  if ( (treble_dodges || hunt_bells != 1) && true_extent )
     {
       ap.error( "-Fe is only implemented for single-hunt plain methods" );
       return false;
@@ -992,6 +992,11 @@ bool arguments::validate_bells( arg_parser* ap )
     return false;
   }
 
+  if ( true_extent && (treble_front != 1 || treble_back != bells) ) {
+    if (ap) ap->error( "-Fe is not implemented for little methods" );
+    return false;
+  }
+
   if ( ( delight3 || delight4 ) && treble_back != 6 && treble_front != 1 ) {
     if (ap) ap->error( "3rds and 4ths place delight methods are specific "
                        "to minor" );
-- 
2.43.0


From f35577c88c5d2f7b245d19412c49d96fd8606a3e Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 01:36:50 +0000
Subject: [PATCH 086/174] fix: methsearch: check the changes copied to make a
 method symmetric

A change copied from elsewhere in the lead could be one which -w, -Fx or a
mask did not allow in its new position, or, with -d, could equal the change
next to it.
---
 apps/methsearch/search.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 4a07ab9..10ed8be 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -434,6 +434,20 @@ bool searcher::is_acceptable_method()
   if ( ! is_acceptable_leadhead( m.lh() ) )
     return false;
 
+  // The search doesn't check that the changes which it copies in order to
+  // make the method symmetric are possible ones.
+  for ( size_t i=0; i<m.size(); ++i )
+    {
+      vector<change> const& allowed 
+        = args.allowed_changes.at(args.hunt_bells || lead_len ? i : i % 2);
+      if ( !binary_search( allowed.begin(), allowed.end(), m[i], 
+                           &compare_changes ) )
+        return false;
+
+      if ( args.true_trivial && m.size() > 1 && m[i] == m[ (i+1) % m.size() ] )
+        return false;
+    }
+
   // The pruning done during the search doesn't catch long places that are
   // completed by changes copied in order to make the method symmetric.
   if ( args.max_consec_blows && !args.long_le_place &&
-- 
2.43.0


From 7a05757d8abb71a9eeebef073f39d489241dfd2a Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 01:51:43 +0000
Subject: [PATCH 087/174] fix: rowcalc: restart the sets within a set and in an
 exponent

When a set is combined with another, it is gone through once for each row of
the other, but a set within a set, or on the right of ^, was only gone
through the first time.
---
 apps/utils/row_calc.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index 19dc0f6..c5bbd5f 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -288,7 +288,7 @@ public:
   {}
 
 private:
-  virtual void restart() { lhs.restart(); }
+  virtual void restart() { lhs.restart(); rhs.restart(); }
   virtual int count_vectors() const 
     { return lhs.count_vectors() + rhs.count_vectors(); }
   virtual bool reads_stdin() const 
@@ -345,7 +345,12 @@ public:
   set_node( list<row_calc::expr> const& l ) : l(l), started(false) {}
 
 private:
-  virtual void restart() { started = false; }
+  virtual void restart() 
+  { 
+    started = false; 
+    for ( list<row_calc::expr>::iterator it=l.begin(); it!=l.end(); ++it ) 
+      it->restart();
+  }
   virtual int count_vectors() const
   {
     int v = 1;
@@ -400,7 +405,7 @@ public:
     : gens( new set_node(gens) ), started(false) {}
 
 private:
-  virtual void restart() { started = false; gens.restart(); }
+  virtual void restart() { if (started) i = g.begin(); }
   virtual int count_vectors() const { return gens.count_vectors(); }
   virtual bool reads_stdin() const { return gens.reads_stdin(); }
   virtual bool supports_type( row_calc::expr::types t ) const
-- 
2.43.0


From 0dc6dde1c37502c59e2182c4ba22963d525ab159 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 01:51:43 +0000
Subject: [PATCH 088/174] fix: rowcalc: do not stop at an empty difference in a
 set

---
 apps/utils/row_calc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index c5bbd5f..8de02ca 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -388,7 +388,9 @@ private:
           ++i;
         }
       else 
-        return i++->evaluate();
+        try {
+          return i++->evaluate();
+        } catch (vector_end) {}  // a difference which is empty
     }
 
     throw vector_end();
-- 
2.43.0


From dacd4588c2fb039a5252ee32e2d91ce770d43677 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 01:51:43 +0000
Subject: [PATCH 089/174] fix: rowcalc: do not mistake a file not yet opened
 for standard input

---
 apps/utils/row_calc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index 8de02ca..ceed0e3 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -485,7 +485,7 @@ public:
 
 private:
   virtual int count_vectors() const { return 1; }
-  virtual bool reads_stdin() const { return !in_owner; }
+  virtual bool reads_stdin() const { return file == "-"; }
 
   virtual void restart() { 
     if (reads_stdin()) 
-- 
2.43.0


From ea8e67991f9024ebaa999ce8a1b42627552331cc Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 01:51:43 +0000
Subject: [PATCH 090/174] fix: rowcalc: parse negative powers

---
 apps/utils/row_calc.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index ceed0e3..d7ae9f9 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -806,7 +806,11 @@ row_calc::expr rc_parser::parse_expr( iter_t first, iter_t last )
   iter_t split;
   tok_types::enum_t setdiff[1]
     = { tok_types::minus };
-  if ( find_last( first, last, setdiff, split ) ) 
+  bool is_diff = find_last( first, last, setdiff, split );
+  // A minus sign following a ^ is the sign of an integer
+  while ( is_diff && split != first && (split-1)->type() == tok_types::power )
+    is_diff = find_last( first, split-1, setdiff, split );
+  if ( is_diff ) 
     {
       check_binary_expr( first, split, last, string(1, (char)split->type()) );
      
-- 
2.43.0


From 09d586973a4ab2da2dc9e8d852efffb774182887 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 01:52:23 +0000
Subject: [PATCH 091/174] fix: rowcalc: allow for omitted tenors in the
 difference of two sets

---
 apps/utils/row_calc.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index d7ae9f9..28ee620 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -205,6 +205,15 @@ void evaluate_binary_arguments( row_calc::expr& rhs, row& r,
   }
 }
 
+// Rows may have any number of tenors omitted, so get rid of them all
+row omit_tenors( row r )
+{
+  int b = r.bells();
+  while ( b > 1 && r[b-1] == b-1 ) --b;
+  r.resize(b);
+  return r;
+}
+
 class setdiff_node : public row_calc::expr::node {
 public:
   setdiff_node( row_calc::expr const& lhs, row_calc::expr const& rhs )
@@ -225,19 +234,19 @@ private:
       if (rhs.count_vectors()) 
         try {
           while (true) 
-            exclude.insert( rhs.evaluate() ); 
+            exclude.insert( omit_tenors( rhs.evaluate() ) ); 
         } 
         catch (vector_end) {}
       else
-        exclude.insert( rhs.evaluate() );
+        exclude.insert( omit_tenors( rhs.evaluate() ) );
       started = true;
     }
 
     row r;
     do { 
       r = lhs.evaluate();
-    } while ( lhs.count_vectors() && exclude.count(r) );
-    if ( exclude.count(r) ) throw vector_end();
+    } while ( lhs.count_vectors() && exclude.count( omit_tenors(r) ) );
+    if ( exclude.count( omit_tenors(r) ) ) throw vector_end();
     return r;
   }
 
-- 
2.43.0


From a6be86fa8393e8942c4c022b2e367f0a72a2fa82 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 01:52:53 +0000
Subject: [PATCH 092/174] fix: rowcalc: report a file that cannot be read
 instead of aborting

---
 apps/rowcalc/rowcalc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/rowcalc/rowcalc.cpp b/apps/rowcalc/rowcalc.cpp
index 95c5cef..8ba0eed 100644
--- a/apps/rowcalc/rowcalc.cpp
+++ b/apps/rowcalc/rowcalc.cpp
@@ -146,6 +146,10 @@ bool evaluate_expr( arguments const& args, string const& expr )
     cerr << "Invalid row produced: " << ex.what() << "\n";
     return false;
   }
+  catch ( exception const& ex ) {
+    cerr << "Error evaluating expression: " << ex.what() << "\n";
+    return false;
+  }
 
   return true;
 }
-- 
2.43.0


From 08b96aa20d4c7cceeaae40a1f15f64cbca5ad11f Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 01:54:28 +0000
Subject: [PATCH 093/174] fix: methsearch: report a file that cannot be read in
 -Fr and -FP

---
 apps/methsearch/music.cpp     | 2 +-
 apps/methsearch/prog_args.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/methsearch/music.cpp b/apps/methsearch/music.cpp
index b5d1780..96bdb77 100644
--- a/apps/methsearch/music.cpp
+++ b/apps/methsearch/music.cpp
@@ -141,7 +141,7 @@ musical_analysis::analyser::analyser( int bells )
               for ( row_calc::const_iterator i=rc->begin(), e=rc->end(); 
                       i!=e; ++i )
                 blocks.push_back( make_pair( *i * row(bells), len ) );
-            } catch ( row::invalid const& e ) {
+            } catch ( exception const& e ) {
               cerr << "Music course head produces invalid row: " 
                    << e.what() << endl;
               exit(1);
diff --git a/apps/methsearch/prog_args.cpp b/apps/methsearch/prog_args.cpp
index d1cf886..4f080c5 100644
--- a/apps/methsearch/prog_args.cpp
+++ b/apps/methsearch/prog_args.cpp
@@ -151,7 +151,7 @@ bool falseness_opt::process( const string &arg, const arg_parser & ) const
         for ( row_calc::const_iterator i=rc->begin(), e=rc->end(); i!=e; ++i ) 
           args.orig_avoid_rows.insert( *i );
       }
-      catch ( row::invalid const& e ) { 
+      catch ( exception const& e ) { 
         cerr << "Invalid row produced in -Fr option: " << e.what() << "\n";
         return false;
       }
@@ -172,7 +172,7 @@ bool falseness_opt::process( const string &arg, const arg_parser & ) const
         for ( row_calc::const_iterator i=rc->begin(), e=rc->end(); i!=e; ++i ) 
           args.pends_generators.push_back( *i );
       }
-      catch ( row::invalid const& e ) { 
+      catch ( exception const& e ) { 
         cerr << "Invalid row produced in -FP option: " << e.what() << "\n";
         return false;
       }
-- 
2.43.0


From 7fab446875aa5d64e18931fcc15bfb5c7a0274b4 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 01:55:58 +0000
Subject: [PATCH 094/174] fix: rowcalc: read the last row of a file which does
 not end in a new line

---
 apps/utils/row_calc.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index 28ee620..62f50c0 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -527,11 +527,12 @@ private:
     }
 
     char const seps[] = " ,;:\t\r\n";
-    while ( *in && strchr( seps, in->peek() ) ) in->get();
+    while ( *in && in->peek() != EOF && strchr( seps, in->peek() ) ) in->get();
     if ( !*in || in->peek() == EOF ) throw vector_end();
 
     string r;
-    while ( *in && !strchr( seps, in->peek() ) ) r += (char)in->get(); 
+    while ( *in && in->peek() != EOF && !strchr( seps, in->peek() ) ) 
+      r += (char)in->get(); 
     return row(r);
   }
 
-- 
2.43.0


From 8fd6a4ee8d04bcccf17eedbc5680c7b2cf04cd9d Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 01:55:58 +0000
Subject: [PATCH 095/174] fix: rowcalc: allow an empty difference to be
 subtracted

---
 apps/utils/row_calc.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index 62f50c0..e5496b5 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -231,14 +231,12 @@ private:
   virtual row evaluate() {
     if (!started) {
       exclude.clear();
-      if (rhs.count_vectors()) 
-        try {
-          while (true) 
-            exclude.insert( omit_tenors( rhs.evaluate() ) ); 
-        } 
-        catch (vector_end) {}
-      else
-        exclude.insert( omit_tenors( rhs.evaluate() ) );
+      try {
+        do
+          exclude.insert( omit_tenors( rhs.evaluate() ) ); 
+        while ( rhs.count_vectors() );
+      } 
+      catch (vector_end) {}
       started = true;
     }
 
-- 
2.43.0


From cd4457bf3c81e554ab410d30b5e09981f6a495ec Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 02:02:40 +0000
Subject: [PATCH 096/174] fix: table_search: allow for part ends which move the
 treble

---
 ringing/table_search.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index 7a7e14b..74aa2cc 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -185,6 +185,11 @@ private:
       if ( !s->calls[i].findplace(0) )
 	return false;
 
+    for ( group::const_iterator i( s->partends.begin() ); 
+          i != s->partends.end(); ++i )
+      if ( i->bells() && (*i)[0] )
+        return false;
+
     return true;
   }
 
-- 
2.43.0


From d1df39b4ab6ead5af708bc55528e500e0743194b Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 02:02:40 +0000
Subject: [PATCH 097/174] fix: touchsearch -a: keep to the maximum length

---
 apps/touchsearch/join_plan_search.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/touchsearch/join_plan_search.cpp b/apps/touchsearch/join_plan_search.cpp
index 7d97638..6b09bac 100644
--- a/apps/touchsearch/join_plan_search.cpp
+++ b/apps/touchsearch/join_plan_search.cpp
@@ -205,7 +205,8 @@ private:
     if ( leads[lh.index()] || leads[le.index()] ) 
       {
         // Has it come round, and is it in it's canonical form?
-        if ( depth >= lenrange.first && lh.isrounds() )
+        if ( depth >= lenrange.first && depth <= lenrange.second
+             && lh.isrounds() )
           output_touch( output );
       }
     else if ( depth < lenrange.second )
-- 
2.43.0


From b2786f01fe498cd0cdc1208f17ea187239ae37a1 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 02:02:40 +0000
Subject: [PATCH 098/174] fix: touchsearch -a: do not use an in-course table
 for plans with odd lead ends

---
 apps/touchsearch/join_plan_search.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/apps/touchsearch/join_plan_search.cpp b/apps/touchsearch/join_plan_search.cpp
index 6b09bac..73600fd 100644
--- a/apps/touchsearch/join_plan_search.cpp
+++ b/apps/touchsearch/join_plan_search.cpp
@@ -91,18 +91,21 @@ private:
 
   static bool is_in_course( const join_plan_search *s )
   {
-    int const psign 
-      = s->plan.size() ? s->plan.begin()->second.back().sign() : 0;
+    int const psign = +1; // The table must hold the lead ends too
 
     for ( map<row,method>::const_iterator i=s->plan.begin(), e=s->plan.end();
             i != e; ++i )
-      if ( i->second.lh().sign() == -1 ) {
+      if ( i->first.sign() == -1 ) {
+        DEBUG( "Lead head " << i->first << " is out-of-course" );
+        return false;
+      }
+      else if ( i->second.lh().sign() == -1 ) {
         DEBUG( "Lead head of method " << i->second.format() << " (at " 
                << i->first << ") is out-of-course" );
         return false;
       } 
       else if ( i->second.back().sign() != psign ) {
-        DEBUG( "Methods have different parity lead end changes" );
+        DEBUG( "Method has a parity-altering lead end change" );
         return false;
       }
         
-- 
2.43.0


From f72cdf309d81b3107bd98c726e2b7f5f2effb6dd Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 02:02:40 +0000
Subject: [PATCH 099/174] fix: touchsearch -a: allow plans and calls which move
 the treble

---
 apps/touchsearch/join_plan_search.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/apps/touchsearch/join_plan_search.cpp b/apps/touchsearch/join_plan_search.cpp
index 73600fd..6bda2bc 100644
--- a/apps/touchsearch/join_plan_search.cpp
+++ b/apps/touchsearch/join_plan_search.cpp
@@ -120,9 +120,27 @@ private:
     return true;
   }
 
+  static bool is_fixed_treble( const join_plan_search *s )
+  {
+    for ( map<row,method>::const_iterator i=s->plan.begin(), e=s->plan.end();
+            i != e; ++i )
+      if ( i->first[0] || i->second.lh()[0] 
+           || !i->second.back().findplace(0) )
+        return false;
+
+    for ( size_t i=0; i < s->calls.size(); ++i )
+      if ( !s->calls[i].findplace(0) )
+        return false;
+
+    return true;
+  }
+
   static multtab make_table( const join_plan_search *s )
   {
-    if ( is_in_course(s) ) {
+    if ( !is_fixed_treble(s) ) {
+      return multtab( extent_iterator( s->bells ), extent_iterator() );
+    }
+    else if ( is_in_course(s) ) {
       return multtab( incourse_extent_iterator( s->bells - 1, 1),
                       incourse_extent_iterator() );
     }
-- 
2.43.0


From 3aadf8e3c9809fd0c1f7046aa65470b00de5f1b6 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 02:03:30 +0000
Subject: [PATCH 100/174] fix: touchsearch -g: no comma before the first lead

---
 apps/touchsearch/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/touchsearch/main.cpp b/apps/touchsearch/main.cpp
index 00392d3..c750042 100644
--- a/apps/touchsearch/main.cpp
+++ b/apps/touchsearch/main.cpp
@@ -91,6 +91,8 @@ public:
                i != e;  ++i ) 
     {    
       for ( int n = 0; n < i->first; ++n ) {
+        if ( (flags & comma_separate) && len != 0 ) cout << ',';
+
         change c;
         for ( touch_node::const_iterator 
                 li = i->second->begin(), le = i->second->end(); 
@@ -100,7 +102,6 @@ public:
         size_t cn = find( args.calls.begin(), args.calls.end(), c ) 
             - args.calls.begin();
 
-        if ( (flags & comma_separate) && len != 0 ) cout << ',';
         if ( cn < args.calls.size() ) cout << args.call_strs[cn];
         else cout << args.plain_name;
       }
-- 
2.43.0


From b8d38f80080179b84198b9bf954af616ca0f7845 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 02:03:30 +0000
Subject: [PATCH 101/174] fix: touchsearch: refuse a part end on too many bells

---
 apps/touchsearch/prog_args.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apps/touchsearch/prog_args.cpp b/apps/touchsearch/prog_args.cpp
index 8b7c0f1..b78b5fb 100644
--- a/apps/touchsearch/prog_args.cpp
+++ b/apps/touchsearch/prog_args.cpp
@@ -235,6 +235,11 @@ bool arguments::generate_pends( arg_parser& ap )
           i( pend_strs.begin() ), e( pend_strs.end() ); i != e; ++i )
     {
       row const g( row(bells) * row(*i) );
+      if ( g.bells() > bells ) {
+        ap.error( make_string() << "The part end '" << *i << "' has more than "
+                    << bells << " bells" );
+        return false;
+      }
       gens.push_back(g);
     }
 
-- 
2.43.0


From cdf80d4959214ed086563253d4ff43d07a3be03b Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 02:04:24 +0000
Subject: [PATCH 102/174] fix: touchsearch -a: read lead heads on other numbers
 of bells

---
 apps/touchsearch/main.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/touchsearch/main.cpp b/apps/touchsearch/main.cpp
index c750042..1f2b8df 100644
--- a/apps/touchsearch/main.cpp
+++ b/apps/touchsearch/main.cpp
@@ -149,17 +149,17 @@ private:
 void read_plan( int bells, istream& in, map<row, method>& plan )
 {
   string line;  
-  int n=1;
+  int n=0;
   while ( getline(in, line) ) {
+    ++n;
     RINGING_ISTRINGSTREAM linestr(line);
     row r;    string pn, name;
-    if ( !(linestr >> r >> pn) )  {
+    if ( !(linestr >> r >> pn) || r.bells() > bells )  {
       cerr << "Error reading line #" << n << "\n";
       continue;
     }
     linestr >> name; // We don't care about errors here
-    ++n;
-    plan[r] = method( pn, bells, name );
+    plan[row(bells) * r] = method( pn, bells, name );
   }
 }
 
-- 
2.43.0


From fa57777a24dc40ef86cfbd068d8a2087b0e89c03 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 02:34:45 +0000
Subject: [PATCH 103/174] fix: methsearch: report a mask which is too long

---
 apps/methsearch/mask.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 848d0cd..01d170a 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -265,7 +265,7 @@ shared_pointer<block> read_block( const int num,
 
 // Convert a '*' to a sequences of '?'s
 void expand_block( vector< vector< change > >& block1, 
-                   bool star_sym, size_t star_index, size_t expand_by )
+                   bool star_sym, size_t star_index, int expand_by )
 {
   if ( star_sym ) 
     assert( block1.size() % 2 );
-- 
2.43.0


From e6fbd6e67d82a1feaf2c40b2f19bf8222a46f75e Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 02:34:45 +0000
Subject: [PATCH 104/174] fix: methsearch: refuse an empty symmetric block in a
 mask

---
 apps/methsearch/mask.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 01d170a..730ed0e 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -255,6 +255,8 @@ shared_pointer<block> read_block( const int num,
   }
    
   if ( rv->is_sym ) {
+    if ( rv->data.empty() )
+      throw mask_error( "Missing block in mask" );
     rv->data.reserve( 2*rv->data.size() );
     copy( rv->data.rbegin() + 1, rv->data.rend(),
           back_inserter( rv->data ) );
-- 
2.43.0


From c64163218af2c73039a7494955feb602c9503be5 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 02:34:45 +0000
Subject: [PATCH 105/174] fix: methsearch: do not mix the alternatives for a
 change in a mask

---
 apps/methsearch/mask.cpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 730ed0e..36b47ef 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -327,7 +327,8 @@ void expand_block( vector< vector< change > >& block1,
 
 bool read_and_expand_blocks( arguments& args,
                              vector< vector<change> >& above, 
-                             vector< vector<change> >& below )
+                             vector< vector<change> >& below,
+                             vector<bool>& split )
 {
   // If lead_len is unspecified, we use length of two (to accommodate -w) 
   // and fix it up when reading this in the search algorithm.
@@ -341,6 +342,10 @@ bool read_and_expand_blocks( arguments& args,
   vector< vector<change> >  block1a,          block1b;
   vector< vector<change> >  block2a,          block2b;
 
+  // Are the works above and below specified separately (i.e. with a '/')?
+  vector<bool> &split0 = split, split2;
+  bool split1(false);
+
   size_t star_index_a(0u),  star_index_b(0u);
   bool   star_sym_a(false), star_sym_b(false);
 
@@ -359,6 +364,7 @@ bool read_and_expand_blocks( arguments& args,
       shared_pointer<block> blka( read_block(args.bells, i, e) ), blkb;
       
       bool got_star(false); // Is block of unknown length?
+      bool is_split(false); // Are there separate above and below sections?
       
       // Is block an above section?
       if ( i != e && *i == '/' ) {
@@ -367,6 +373,7 @@ bool read_and_expand_blocks( arguments& args,
                             "above and below sections" );
 
         ++i; // skip '/'
+        is_split = true;
         blkb = read_block(args.bells, i, e);
         
         if ( i != e && *i == '/' )
@@ -412,6 +419,12 @@ bool read_and_expand_blocks( arguments& args,
       }
       
       // Now append the blocks to the collections of blocks
+      if ( got_star )
+        split1 = is_split;
+      else {
+        vector<bool>& splitx = block1a.empty() ? split0 : split2;
+        splitx.insert( splitx.end(), blka->data.size(), is_split );
+      }
       {
         vector< vector<change> > &blockxa
           = got_star ? block1a : block1a.empty() ? block0a : block2a;
@@ -470,6 +483,9 @@ bool read_and_expand_blocks( arguments& args,
   copy( block2a.begin(), block2a.end(), back_inserter( block0a ) );
   copy( block2b.begin(), block2b.end(), back_inserter( block0b ) );
 
+  split.insert( split.end(), block1a.size(), split1 );
+  copy( split2.begin(), split2.end(), back_inserter( split ) );
+
   return true;
 }
 
@@ -611,7 +627,7 @@ change merge_changes( const arguments& args,
 
 void merge_changes( const arguments& args, vector<change>& result,
                     const vector<change>& above, const vector<change>& below,
-                    int i )
+                    bool paired, int i )
 {
   result.reserve( above.size() * below.size() );
   pair< int, int > posn( get_posn2(args, i) );
@@ -643,6 +659,11 @@ void merge_changes( const arguments& args, vector<change>& result,
 
   for ( int ia=0, na=above.size(); ia < na; ++ia )
     for ( int ib=0, nb=below.size(); ib < nb; ++ib ) {
+      // If these are whole changes, don't mix the work above the treble from 
+      // one with the work below the treble from another
+      if ( paired && ia != ib )
+        continue;
+
       const change ch( merge_changes( args, above[ia], below[ib], posn ) );
       DEBUG( "Merging " << below[ib] << " and " << above[ia] << " gives "
                << ch );
@@ -804,8 +825,9 @@ void restrict_changes( arguments& args )
 bool parse_mask( arguments &args )
 {
   vector< vector<change> > above, below;
+  vector<bool> split;
 
-  if ( !read_and_expand_blocks( args, above, below ) )
+  if ( !read_and_expand_blocks( args, above, below, split ) )
     return false;
 
   if ( args.lead_len && !is_mask_consistent(args, above, below) )
@@ -833,6 +855,7 @@ bool parse_mask( arguments &args )
       if ( args.hunt_bells ) {
         vector<change>& changesa = above[i];
         vector<change>& changesb = below[i];
+        bool const paired = !split[i] && !changesa.empty();
    
         // A ? above or below the treble
         if ( changesa.empty() ) 
@@ -840,7 +863,7 @@ bool parse_mask( arguments &args )
         if ( changesb.empty() ) 
           select_changes_below( args, changesb, i );
    
-        merge_changes( args, changes_to_try, changesa, changesb, i );
+        merge_changes( args, changes_to_try, changesa, changesb, paired, i );
       }
       else if (changes_to_try.empty()) { // principles
         if ( above[i].empty() )
-- 
2.43.0


From 37188c12b0be306d0db0fb4d95604a635b8b7061 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 02:36:06 +0000
Subject: [PATCH 106/174] fix: methsearch: only refuse a mask as inconsistent
 when no changes are common

---
 apps/methsearch/mask.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 36b47ef..5f659b0 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -706,22 +706,29 @@ vector<change> reverse_allowed( const vector<change>& ch )
   return rv;
 }
 
-bool unordered_equal( const vector<change>& a, const vector<change>& b )
+// Can the symmetry relate these two sets of alternatives?
+bool have_common_change( const vector<change>& a, const vector<change>& b )
 {
   for ( vector<change>::const_iterator i(a.begin()), e(a.end());
         i != e;  ++i )
-    if ( find( b.begin(), b.end(), *i ) == b.end() )
-      return false;
-  return true;
+    if ( find( b.begin(), b.end(), *i ) != b.end() )
+      return true;
+  return false;
 }
 
 bool is_mask_consistent( arguments &args, 
                          const vector<vector<change> > &above,
-                         const vector<vector<change> > &below )
+                         const vector<vector<change> > &below,
+                         const vector<bool> &split )
 {
   assert( args.lead_len );
   const int hl_len = args.lead_len / 2;
 
+  // Where the works above and below are specified separately, they are not 
+  // whole changes and cannot be compared.
+  if ( find( split.begin(), split.end(), true ) != split.end() )
+    return true;
+
   for ( int depth=0; depth < 2*hl_len; ++depth ) {
     if ( args.skewsym ) {
       const int depth2( ( depth > hl_len ? 3 : 1 ) * hl_len
@@ -741,11 +748,11 @@ bool is_mask_consistent( arguments &args,
       const vector<change> &ch2b = below[other_index];
 
       if ( ch1a.size() && ch2b.size() &&
-           !unordered_equal( ch1a, reverse_allowed(ch2b) ) )
+           !have_common_change( ch1a, reverse_allowed(ch2b) ) )
         return false;
 
       if ( ch1b.size() && ch2a.size() &&
-           !unordered_equal( ch1b, reverse_allowed(ch2a) ) )
+           !have_common_change( ch1b, reverse_allowed(ch2a) ) )
         return false;
     }
 
@@ -758,11 +765,11 @@ bool is_mask_consistent( arguments &args,
       const vector<change> &ch2b = below[other_index];
 
       if ( ch1a.size() && ch2b.size() &&
-           !unordered_equal( ch1a, reverse_allowed(ch2b) ) )
+           !have_common_change( ch1a, reverse_allowed(ch2b) ) )
         return false;
 
       if ( ch1b.size() && ch2a.size() &&
-           !unordered_equal( ch1b, reverse_allowed(ch2a) ) )
+           !have_common_change( ch1b, reverse_allowed(ch2a) ) )
         return false;
     }
 
@@ -781,11 +788,11 @@ bool is_mask_consistent( arguments &args,
       const vector<change> &ch2b = below[other_index];
 
       if ( ch1a.size() && ch2a.size() &&
-           !unordered_equal( ch1a, ch2a ) )
+           !have_common_change( ch1a, ch2a ) )
         return false;
 
       if ( ch1b.size() && ch2b.size() &&
-           !unordered_equal( ch1b, ch2b ) )
+           !have_common_change( ch1b, ch2b ) )
         return false;
     }
   }
@@ -830,7 +837,7 @@ bool parse_mask( arguments &args )
   if ( !read_and_expand_blocks( args, above, below, split ) )
     return false;
 
-  if ( args.lead_len && !is_mask_consistent(args, above, below) )
+  if ( args.lead_len && !is_mask_consistent(args, above, below, split) )
     throw mask_error
       ( "Some of the required changes specified are inconsistent "
         "with the specified symmetries" );
-- 
2.43.0


From 763fdc9e6d57ab7b5d39d90a12790e219ab9204f Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 02:36:06 +0000
Subject: [PATCH 107/174] fix: methsearch: apply --limit to --invert-filter

---
 apps/methsearch/search.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 10ed8be..c880b24 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -197,6 +197,9 @@ inline void searcher::do_status( method const& m ) {
 void searcher::filter( library const& in )
 {
   for ( library::const_iterator i=in.begin(), e=in.end(); i!=e; ++i ) { 
+    if ( search_limit && search_limit != -1 && search_count == search_limit )
+      break;
+
     class reset_bells {
     public:
       reset_bells(arguments& args) : args(args), val(args.bells) {}
-- 
2.43.0


From 7b8689573985369c2d19e53543a23a5f74ed57b3 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 02:36:25 +0000
Subject: [PATCH 108/174] fix: methsearch: start at the method given to
 --start-at in symmetric searches

---
 apps/methsearch/search.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index c880b24..162b67d 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -116,7 +116,6 @@ private:
   RINGING_ULLONG search_count;
   RINGING_ULLONG node_count;
 
-  vector<change> startmeth;
   method filter_method;
   string filter_payload;
   size_t div_start;  // The index (into m) of the row of the division
@@ -139,9 +138,6 @@ searcher::searcher( arguments &args )
     args.orig_lead_len = args.lead_len;
 
   reset();
-
-  copy( args.startmeth.rbegin(), args.startmeth.rend(), 
-        back_inserter(startmeth) );
 }
 
 void searcher::init() {
@@ -1201,10 +1197,9 @@ void searcher::new_midlead_change()
   // If we're starting at a particular point (with --start), find out
   // what that change is.
   change first;
-  if ( startmeth.size() ) {
-    first = startmeth.back();
-    startmeth.pop_back();
-  }
+  if ( depth < args.startmeth.size() && 
+       equal( m.begin(), m.end(), args.startmeth.begin() ) )
+    first = args.startmeth[depth];
 
   for ( vector<change>::const_iterator 
           i( changes_to_try.begin() ), e( changes_to_try.end() ); 
-- 
2.43.0


From 1774c108072613510d87f1644b19357292ec51e2 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 02:36:35 +0000
Subject: [PATCH 109/174] fix: methsearch: apply --row-match to the first row

---
 apps/methsearch/search.cpp | 43 ++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 162b67d..83de8a3 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -94,6 +94,7 @@ private:
   bool try_offset_start_change( const change &ch);
   bool try_with_limited_le( const change& ch );
   bool try_floating_symmetry();
+  bool try_row_match();
 
   bool is_acceptable_method();
   void output_method( method const& meth );
@@ -630,6 +631,27 @@ bool searcher::is_acceptable_method()
   return true;
 }
 
+// Does the current row match any --row-match pattern given for it?
+bool searcher::try_row_match()
+{
+  if ( m.size() < args.row_matches.size() 
+       && args.row_matches[m.size()].bells() ) {
+    music& mus = const_cast<music&>( args.row_matches[m.size()] );
+    row const r( this->r * row(bells) );
+
+    if (args.pends.size() > 1) {
+      for (group::const_iterator i(args.pends.begin()), e(args.pends.end());
+             i != e; ++i)
+        if (mus.process_row(*i * r))
+          return true;
+      return false;
+    }
+    else if (!mus.process_row(r))
+      return false;
+  }
+  return true;
+}
+
 inline bool searcher::push_change( const change& ch )
 {
   m.push_back( ch );
@@ -646,22 +668,8 @@ inline bool searcher::push_change( const change& ch )
         return false;
     }
 
-    if ( m.size() < args.row_matches.size() 
-         && args.row_matches[m.size()].bells() ) {
-      music& mus = const_cast<music&>( args.row_matches[m.size()] );
-
-      if (args.pends.size() > 1) {
-        bool matched = false;
-        for (group::const_iterator i(args.pends.begin()), e(args.pends.end());
-               i != e; ++i)
-          if (mus.process_row(*i * r))
-            matched = true;
-        if (!matched)
-          return false;
-      }
-      else if (!mus.process_row(r))
-        return false;
-    }
+    if ( !try_row_match() )
+      return false;
   }
   if (m.length() == div_start + cur_div_len) {
     div_start += cur_div_len;
@@ -1389,6 +1397,9 @@ void searcher::general_recurse()
        search_count == search_limit )
     return;
 
+  if ( depth == 0 && !try_row_match() )
+    return;
+
   // Status message (when in search mode)
   if ( !args.filter_mode ) do_status(m);
 
-- 
2.43.0


From 2ac8fc0871bec61c52a225bdf9a5462cd30cdb3b Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 02:43:46 +0000
Subject: [PATCH 110/174] fix: methsearch: refuse 3rds and 4ths place delight
 on other stages

---
 apps/methsearch/prog_args.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/prog_args.cpp b/apps/methsearch/prog_args.cpp
index 4f080c5..3c36a61 100644
--- a/apps/methsearch/prog_args.cpp
+++ b/apps/methsearch/prog_args.cpp
@@ -997,7 +997,7 @@ bool arguments::validate_bells( arg_parser* ap )
     return false;
   }
 
-  if ( ( delight3 || delight4 ) && treble_back != 6 && treble_front != 1 ) {
+  if ( ( delight3 || delight4 ) && ( treble_back != 6 || treble_front != 1 ) ) {
     if (ap) ap->error( "3rds and 4ths place delight methods are specific "
                        "to minor" );
     return false;
-- 
2.43.0


From 664df55b1bd36e3e7809842885da59ad0dafb12e Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 02:44:00 +0000
Subject: [PATCH 111/174] fix: methsearch: report an invalid treble path

---
 apps/methsearch/prog_args.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/prog_args.cpp b/apps/methsearch/prog_args.cpp
index 3c36a61..00fb1d9 100644
--- a/apps/methsearch/prog_args.cpp
+++ b/apps/methsearch/prog_args.cpp
@@ -966,7 +966,7 @@ bool arguments::validate_bells( arg_parser* ap )
     return false;
   }
 
-  if ( !validate_path() ) return false;
+  if ( !validate_path(ap) ) return false;
 
   if ( hunt_bells >= bells ) {
     if (ap) ap->error( make_string() << "Method must have fewer than " 
-- 
2.43.0


From 150b9ca66a47581778317e17b2914f8a9db5cf2e Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 02:44:00 +0000
Subject: [PATCH 112/174] fix: methsearch: keep to the starting row given to
 -Fs

---
 apps/methsearch/search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 83de8a3..bd27b55 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -693,7 +693,7 @@ inline void searcher::pop_change( row const* r_old )
         && prv )
       prv->remove_row(r);
     if ( r_old ) r = *r_old;  
-    else r = args.pends.rcoset_label( m.lh() );
+    else r = args.pends.rcoset_label( args.start_row * m.lh() );
   }
 }
 
-- 
2.43.0


From c3aa3f61d9ff6ea4b3ad9d478bb8702c6678b97b Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 113/174] fix: methsearch: compare a mask with its image under
 the symmetries actually required

---
 apps/methsearch/mask.cpp | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 5f659b0..50841fa 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -722,7 +722,16 @@ bool is_mask_consistent( arguments &args,
                          const vector<bool> &split )
 {
   assert( args.lead_len );
-  const int hl_len = args.lead_len / 2;
+  const int lead_len = args.lead_len, hl_len = lead_len / 2;
+
+  // The symmetry points of the treble's path are shifted with an even number
+  // of hunt bells.
+  const int offset = args.hunt_bells && args.hunt_bells % 2 == 0
+    ? 2 * args.treble_dodges : lead_len - 2;
+
+  // We do not know where the symmetry points will be.
+  if ( args.floating_sym )
+    return true;
 
   // Where the works above and below are specified separately, they are not 
   // whole changes and cannot be compared.
@@ -731,16 +740,9 @@ bool is_mask_consistent( arguments &args,
 
   for ( int depth=0; depth < 2*hl_len; ++depth ) {
     if ( args.skewsym ) {
-      const int depth2( ( depth > hl_len ? 3 : 1 ) * hl_len
-                        - args.hunt_bells % 2 * 2 - depth );
-
-      if ( depth2 < 0 || depth2 >= hl_len*2 || depth2 == depth )
-          continue;
-
       // FIXME Quarter-lead change
 
-      int other_index( ( depth > hl_len ? 3 : 1 ) * hl_len 
-                       - args.hunt_bells % 2 * 2 - depth );
+      int other_index( ( lead_len + hl_len + offset - depth ) % lead_len );
 
       const vector<change> &ch1a = above[depth];
       const vector<change> &ch1b = below[depth];
@@ -774,13 +776,7 @@ bool is_mask_consistent( arguments &args,
     }
 
     if ( args.sym ) {
-      size_t offset = (args.hunt_bells && args.hunt_bells % 2 == 0) ? 1 : 0;
-      if ( 2 * (hl_len - 1 + offset) - depth < 0 || 
-           2 * (hl_len - 1 + offset) - depth >= 2 * hl_len )
-        continue;
-
-      int other_index( 2 * (hl_len - 1 + offset) - depth );
-      assert( other_index >= 0 ); assert( other_index <= above.size() );
+      int other_index( ( lead_len + offset - depth ) % lead_len );
 
       const vector<change> &ch1a = above[depth];
       const vector<change> &ch1b = below[depth];
-- 
2.43.0


From c30054f4707bf4259fb32683457a75591d677189 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 02:46:15 +0000
Subject: [PATCH 114/174] fix: methsearch: do not apply -Fr to the lead head

---
 apps/methsearch/search.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index bd27b55..5ef47bb 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -396,7 +396,9 @@ public:
 
   bool prove_lh( row const& lh ) {
     row const r2 = args.pends.rcoset_label(lh);
-    if ( r2 != args.start_row )
+    // The lead head is not one of the rows to which -Fr applies
+    if ( r2 != args.start_row 
+         && args.avoid_rows.find(r2) == args.avoid_rows.end() )
       p.add_row(r2);
     return p.truth();
   }
-- 
2.43.0


From db32e6185add09ca534ebfa299cd5f336eb0f1f5 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 02:48:11 +0000
Subject: [PATCH 115/174] fix: methsearch: avoid the rows of -Fr in several
 extents

---
 apps/methsearch/search.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 5ef47bb..cad7f1f 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -173,7 +173,8 @@ void searcher::reset()
     prv.reset( new prover(args.n_extents) );
     for ( set<row>::const_iterator 
             i=args.avoid_rows.begin(), e=args.avoid_rows.end(); i != e; ++i )
-      prv->add_row(*i);
+      for ( int n=0; n<args.n_extents; ++n )
+        prv->add_row(*i);
     prv->add_row(r);
     assert( prv->truth() );
     maintain_r = true;
@@ -370,7 +371,8 @@ private:
   void init() {
     for ( set<row>::const_iterator 
             i=args.avoid_rows.begin(), e=args.avoid_rows.end(); i != e; ++i )
-      p.add_row(*i);
+      for ( int n=0; n<args.n_extents; ++n )
+        p.add_row(*i);
     assert( p.truth() );
   }
 
-- 
2.43.0


From 0b017e0e1eb1d708e6aec90fd9b542f619e8f18b Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 02:49:13 +0000
Subject: [PATCH 116/174] fix: methsearch: avoid the rows of -Fr throughout the
 course of a symmetric method

---
 apps/methsearch/search.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index cad7f1f..b714f2c 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -546,12 +546,13 @@ bool searcher::is_acceptable_method()
   // Plain methods cannot be false in the half-lead, and if symmetric
   // cannot be false in the plain course.  Therefore we only need this 
   // test if (i) we have part ends; or (ii) we're not a symmetric plain 
-  // method.
+  // method; or (iii) there are rows to be avoided in the whole course.
   // As a further optimisation, we could (but don't) move symmetric 
   // into the following block by folding the actual lhs and les into the
   // part end group.
   if ( args.true_lead 
          && ( args.pends.size() > 1 
+              || args.true_course && args.avoid_rows.size()
               || !( args.sym && args.hunt_bells && !args.treble_dodges ) ) )
     {
       prover2 p(args);
-- 
2.43.0


From 9e86738de2896a1962f28d8767dafaf7c6764daa Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 03:23:29 +0000
Subject: [PATCH 117/174] fix: methsearch: treat a row, change, path or
 coursing order which a method lacks as an expression error

A place notation slice, row or coursing order that a method did not have
ended the whole program with an uncaught exception (or read beyond the
end of the method), and a path of a bell that does not exist was printed
as rubbish.
---
 apps/methsearch/expression.cpp  |  1 +
 apps/methsearch/format.cpp      | 27 +++++++++++++++++++++++----
 apps/methsearch/methodutils.cpp |  3 ++-
 apps/methsearch/output.cpp      | 25 ++++++++++++-------------
 apps/methsearch/output.h        | 13 +++++++++++++
 5 files changed, 51 insertions(+), 18 deletions(-)

diff --git a/apps/methsearch/expression.cpp b/apps/methsearch/expression.cpp
index c625686..a9baebc 100644
--- a/apps/methsearch/expression.cpp
+++ b/apps/methsearch/expression.cpp
@@ -916,6 +916,7 @@ expression::expression( const string& str )
 #define RINGING_CATCH_EXPRESSION_ERROR( retval )           \
   catch ( division_by_zero const& ) { return (retval); }   \
   catch ( bad_lexical_cast const& ) { return (retval); }   \
+  catch ( property_error   const& ) { return (retval); }   \
   catch ( bell::invalid    const& ) { return (retval); }   \
   catch ( row::invalid     const& ) { return (retval); }   \
   catch ( row_wildcard::invalid_pattern const& ) { return (retval); }
diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index 7f57fda..ce66c85 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -189,6 +189,20 @@ private:
   method_properties props;
 };
 
+RINGING_START_ANON_NAMESPACE
+static string get_property_or_error( method_properties const& props,
+                                     pair<int,int> const& num_opts,
+                                     string const& name )
+{
+  try {
+    return props.get_property( num_opts, name );
+  }
+  catch ( property_error const& ) {
+    return expr_error_string;
+  }
+}
+RINGING_END_ANON_NAMESPACE
+
 bool histogram_entry::cmp::operator()( const histogram_entry &x, 
                                        const histogram_entry &y ) const
 {
@@ -213,8 +227,8 @@ bool histogram_entry::cmp::operator()( const histogram_entry &x,
         yval = expression_cache::evaluate(i->first.first, y.props);
       }
       else {
-        xval = x.props.get_property( i->first, i->second );
-        yval = y.props.get_property( i->first, i->second );
+        xval = get_property_or_error( x.props, i->first, i->second );
+        yval = get_property_or_error( y.props, i->first, i->second );
       }
 
       if ( xval < yval ) 
@@ -277,8 +291,9 @@ void histogram_entry::print( ostream &os2, RINGING_ULLONG count ) const
                   break;
 
                 default:
-                  os << props.get_property( make_pair(num_opt, num2_opt), 
-                                            string(1, *iter) );
+                  os << get_property_or_error( props, 
+                                               make_pair(num_opt, num2_opt), 
+                                               string(1, *iter) );
                 }
             }
           else
@@ -496,6 +511,10 @@ format_string::format_string( const string &infmt,
         case 'D': have_old_lhcodes = true; break;
         case 'h': case 'r':
           max_lead_offset = max( max_lead_offset, num_opt );
+          break;
+        case 'p': case 'q':
+          max_lead_offset = max( max_lead_offset, max( num_opt, num2_opt ) );
+          break;
       }
 
       // $[ options are converted into $N* options by the ']' 
diff --git a/apps/methsearch/methodutils.cpp b/apps/methsearch/methodutils.cpp
index 0eec404..6add665 100644
--- a/apps/methsearch/methodutils.cpp
+++ b/apps/methsearch/methodutils.cpp
@@ -24,6 +24,7 @@
 #endif
 
 #include "methodutils.h"
+#include "output.h"
 #include <string>
 #include <stdexcept>
 #include <iostream>
@@ -273,7 +274,7 @@ string tenors_together_coursing_order( const method& m )
 
 
   if ( b == m.bells() - 1 ) // 7 and 8 are in different orbits
-    throw runtime_error( "Unable to get a tenors together coursing order" );
+    throw property_error( "Unable to get a tenors together coursing order" );
   
   assert( b == m.bells() - 2 );
 
diff --git a/apps/methsearch/output.cpp b/apps/methsearch/output.cpp
index f118573..2d0a1bc 100644
--- a/apps/methsearch/output.cpp
+++ b/apps/methsearch/output.cpp
@@ -139,13 +139,13 @@ static string format_pn( const method& m, pair<int,int> const& nums,
                          int fmt_opts ) {
   if (nums.first) {
     if ( nums.first > m.size() || nums.first <= 0 ) 
-      throw runtime_error( "Place notation offset out of range" );
+      throw property_error( "Place notation offset out of range" );
     method::const_iterator i( m.begin() + nums.first - 1 );
 
     vector<change> ch;
     if (nums.second) {
       if ( nums.second > m.size() || nums.second < nums.first ) 
-        throw runtime_error( "Place notation offset out of range" );
+        throw property_error( "Place notation offset out of range" );
       method::const_iterator e( m.begin() + nums.second );
 
       ch.assign(i, e);
@@ -200,24 +200,21 @@ string method_properties::impl2::get_property( pair<int,int> const& num_opts,
 
 	case 'r': {
 	  // TODO:  Should we cache all rows at same time?
+	  // This should only happen if we're filtering with -U0 and no -n.
+	  if ( num_opts.first > m.size() )
+	    throw property_error( "Format specifies row after end of method" );
 	  row r( m.bells() );
-	  int n( num_opts.first );
-	  for ( method::const_iterator 
+	  for ( method::const_iterator
 		  i( m.begin() ), e( m.begin() + num_opts.first );
-		n && i != e; ++i, --n ) 
+		i != e; ++i )
 	    r *= *i;
-	  if ( n )
-	    throw runtime_error( "Format specifies row after end of method" );
 	  os << r;
 	} break;
 
 	case 'h': 
-	  try { 
-            os << m.at( num_opts.first-1 ); 
-          } catch ( out_of_range const& ) {
-            // This should only happen if we're filtering with -U0 and no -n.
-            os << expr_error_string;
-          }
+	  if ( num_opts.first < 1 || num_opts.first > m.size() )
+	    throw property_error( "Format specifies change outside method" );
+	  os << m[ num_opts.first-1 ];
 	  break;
 
 	case 'b': 
@@ -277,6 +274,8 @@ string method_properties::impl2::get_property( pair<int,int> const& num_opts,
 	  break;
 
 	case 'P': {
+	  if ( num_opts.first < 1 || num_opts.first > m.bells() )
+	    throw property_error( "Format specifies path of a non-existent bell" );
 	  bell b(num_opts.first-1); os << b;
 	  for ( method::const_iterator i( m.begin() ), e( m.end() ); 
 		i != e; ++i ) os << (b *= *i);
diff --git a/apps/methsearch/output.h b/apps/methsearch/output.h
index ebf06e0..b8c61cb 100644
--- a/apps/methsearch/output.h
+++ b/apps/methsearch/output.h
@@ -28,6 +28,11 @@
 #endif
 
 #include <string>
+#if RINGING_OLD_INCLUDES
+#include <stdexcept.h>
+#else
+#include <stdexcept>
+#endif
 #include <ringing/library.h>
 
 RINGING_USING_NAMESPACE
@@ -50,6 +55,14 @@ private:
   class impl2;
 };
 
+// Thrown when a method does not have the property requested.  It is an
+// expression error, and so is reported as expr_error_string.
+class property_error : public std::runtime_error
+{
+public:
+  explicit property_error( string const& what ) : std::runtime_error(what) {}
+};
+
 // The string '<ERROR>' that we use to signal run-time errors in expressions.
 extern char const* expr_error_string;
 
-- 
2.43.0


From 5620296e2bddc9d47a1690094c42892bcbbd569f Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 03:23:29 +0000
Subject: [PATCH 118/174] fix: methsearch: check every change when testing
 rotational symmetry about a row

With an odd number of changes the one opposite the row was not checked.
---
 apps/methsearch/methodutils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/methodutils.cpp b/apps/methsearch/methodutils.cpp
index 6add665..16cb6bc 100644
--- a/apps/methsearch/methodutils.cpp
+++ b/apps/methsearch/methodutils.cpp
@@ -196,7 +196,7 @@ bool has_rotational_symmetry( const method &m )
     // Try m[i] / m[(i+1)%n] as the rotational symmetry point
     bool ok = true;
 
-    for ( int j=0; j<n/2 && ok; ++j )
+    for ( int j=0; j<(n+1)/2 && ok; ++j )
       if ( m[ (i+j+1)%n ] != m[ (n+i-j)%n ].reverse() )
         ok = false;
 
-- 
2.43.0


From 4596760a8a5e1aa3ebc3f266511d52026d2cbea1 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 03:23:29 +0000
Subject: [PATCH 119/174] fix: methsearch: do not treat a dollar written as
 \x24 as the start of a variable

---
 apps/methsearch/format.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index ce66c85..d1c4dc7 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -556,6 +556,8 @@ format_string::format_string( const string &infmt,
           unsigned char value = 0x00;
           value += parse_xdigit(*++iter) * 0x10;
           value += parse_xdigit(*++iter);
+          // Escape '$' from the next stage
+          if ( value == '$' ) *outfmts.top() << '$';
           *outfmts.top() << char(value);
         } break;
         // For everything else, \x -> literal x
-- 
2.43.0


From ed6011e4c8036aa6d3989c417bc45503933489f0 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 03:23:29 +0000
Subject: [PATCH 120/174] fix: methsearch: allow a range of changes in $p and
 $q in expressions

---
 apps/methsearch/expression.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/expression.cpp b/apps/methsearch/expression.cpp
index a9baebc..6d76721 100644
--- a/apps/methsearch/expression.cpp
+++ b/apps/methsearch/expression.cpp
@@ -334,8 +334,8 @@ public:
     if ( iter != begin )
       num_opt = atoi( string( begin, iter ).c_str() );
 
-    if ( *iter == ',' ) {
-      string::const_iterator iter2(iter);
+    if ( iter != end && *iter == ',' ) {
+      string::const_iterator iter2(++iter);
       while ( iter != end && isdigit(*iter) ) ++iter;
       if ( iter != iter2 )
         num2_opt = atoi( string( iter2, iter ).c_str() );
@@ -861,6 +861,10 @@ private:
       string::const_iterator j = i;
       if ( *j != '$' ) return failed; ++j;
       while ( j < e && isdigit(*j) ) ++j;
+      if ( j < e && *j == ',' ) {
+        ++j;
+        while ( j < e && isdigit(*j) ) ++j;
+      }
       if ( j == e ) return more; // Or fail?
       // $N* is magic:
       if ( !isalpha(*j) && *j != '*' && *j != '#' && *j != '?' ) 
-- 
2.43.0


From f599f1db275406e67254e61454f32394ea6111e6 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 03:23:52 +0000
Subject: [PATCH 121/174] fix: methsearch: give each method one number, and
 number suppressed methods too

$# gave a new number for each field width it was used with, and methods
discarded with the suppress keyword were only numbered if $# was used
before it.
---
 apps/methsearch/format.cpp | 2 ++
 apps/methsearch/output.cpp | 8 ++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index d1c4dc7..8df0902 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -103,6 +103,8 @@ public:
 private:
   virtual void append( library_entry const& entry ) {
     method_properties props( entry );
+    // Number the method even if the format does not get as far as using it.
+    props.get_property( make_pair(0, 0), "#" );
     fs.print_method( props, (os ? *os : cout) );
   }
 
diff --git a/apps/methsearch/output.cpp b/apps/methsearch/output.cpp
index 2d0a1bc..1bc8833 100644
--- a/apps/methsearch/output.cpp
+++ b/apps/methsearch/output.cpp
@@ -76,7 +76,7 @@ class method_properties::impl2 : public library_entry::impl
 {
 public:
   explicit impl2( const method& m, const string& payload )
-    : m(m), payload(payload), named(false) {}
+    : m(m), payload(payload), named(false), number(0) {}
 
   string get_property( pair<int,int> const& num_opts, 
                        const string& name ) const;
@@ -100,6 +100,7 @@ private:
   mutable method m;
   const string payload;
   mutable bool named; // Have we looked up the name; not whether it is named
+  mutable RINGING_ULLONG number; // Zero until one is assigned
   mutable map< pair< pair<int,int>, string >, string > cache;
 };
 
@@ -290,8 +291,11 @@ string method_properties::impl2::get_property( pair<int,int> const& num_opts,
           break;
 
 	case '#': {
+	  // It must be the same number, however often and in whatever width
+	  // it is requested.
 	  static RINGING_ULLONG n=0;
-	  os << setw(num_opts.first) << ++n;
+	  if ( !number ) number = ++n;
+	  os << setw(num_opts.first) << number;
 	} break;
  
         case 'i': {
-- 
2.43.0


From 901465b08c497550a14eaeced7696c212c32dbc3 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 03:27:12 +0000
Subject: [PATCH 122/174] fix: methsearch: analyse music on each method's own
 number of bells in filter mode

---
 apps/methsearch/music.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/apps/methsearch/music.cpp b/apps/methsearch/music.cpp
index 96bdb77..f62c2b8 100644
--- a/apps/methsearch/music.cpp
+++ b/apps/methsearch/music.cpp
@@ -31,6 +31,7 @@
 #include <ringing/row.h>
 #include <ringing/method.h>
 #include <ringing/music.h>
+#include <ringing/pointers.h>
 #include <ringing/streamutils.h>
 
 
@@ -65,7 +66,12 @@ public:
  ~analyser() {}
     
   static analyser &instance( int bells ) 
-  { static analyser tmp( bells ); return tmp; }
+  { 
+    static map< int, shared_pointer<analyser> > tmp;
+    shared_pointer<analyser> &p = tmp[bells];
+    if ( !p ) p.reset( new analyser( bells ) );
+    return *p;
+  }
 
   friend class patterns;
     
@@ -244,6 +250,7 @@ int musical_analysis::analyse( const method &m )
 
 void musical_analysis::force_init( int bells )
 {
-  // Going into this function initialises the static there.
-  analyser::instance( bells );
+  // Any error in the patterns is reported now.  In filter mode the number of
+  // bells need not have been given, and may differ from method to method.
+  if ( bells ) analyser::instance( bells );
 }
-- 
2.43.0


From f5204a753074d944493a0c6782659e4eec608d20 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 03:30:09 +0000
Subject: [PATCH 123/174] fix: methsearch: print the place notation of an over-
 or underwork with no name in the map

---
 apps/methsearch/output.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/output.cpp b/apps/methsearch/output.cpp
index 1bc8833..a58e1c0 100644
--- a/apps/methsearch/output.cpp
+++ b/apps/methsearch/output.cpp
@@ -320,7 +320,8 @@ string method_properties::impl2::get_property( pair<int,int> const& num_opts,
 	case 'V': {
           method work( split_over_and_under(m).first );
           library_entry le( overwork_map().find(work) );
-          if ( le.null() || !le.has_facet<litelib::payload>() ) 
+          if ( le.null() || !le.has_facet<litelib::payload>()
+               || string( le.get_facet<litelib::payload>() ).empty() ) 
             os << work.format( pn_fmt_flags );
           else
             os << le.get_facet<litelib::payload>();
@@ -329,7 +330,8 @@ string method_properties::impl2::get_property( pair<int,int> const& num_opts,
 	case 'U': {
           method work( split_over_and_under(m).second );
           library_entry le( underwork_map().find(work) );
-          if ( le.null() || !le.has_facet<litelib::payload>() ) 
+          if ( le.null() || !le.has_facet<litelib::payload>()
+               || string( le.get_facet<litelib::payload>() ).empty() ) 
             os << work.format( pn_fmt_flags );
           else
             os << le.get_facet<litelib::payload>();
-- 
2.43.0


From f10b8ae606f71815d5ca1ed579f6e6f9ad932fa3 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 03:36:20 +0000
Subject: [PATCH 124/174] fix: methsearch: a remainder on division by zero is
 an expression error

---
 apps/methsearch/expression.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/expression.cpp b/apps/methsearch/expression.cpp
index 6d76721..15f5bc8 100644
--- a/apps/methsearch/expression.cpp
+++ b/apps/methsearch/expression.cpp
@@ -42,6 +42,7 @@
 #include <typeinfo> // for bad_cast
 #include <stdexcept>
 #include <functional>
+#include <limits>
 #endif
 #include <string>
 #if RINGING_HAVE_OLD_IOSTREAMS
@@ -54,6 +55,7 @@
 #include <istream>
 #include <iomanip>
 #endif
+#include <ringing/lexical_cast.h>
 #include <ringing/music.h>
 #include <ringing/row.h>
 #include <ringing/streamutils.h> // Takes care of <sstream>
@@ -518,10 +520,21 @@ template <class T>
 struct safe_divides : binary_function<T,T,T> {
   T operator() (const T& x, const T& y) const {
     if (y == T()) throw division_by_zero();
+    // The one quotient that overflows
+    if (y == T(-1) && x == numeric_limits<T>::min()) throw bad_lexical_cast();
     return x/y;
   }
 };
 
+template <class T> 
+struct safe_modulus : binary_function<T,T,T> {
+  T operator() (const T& x, const T& y) const {
+    if (y == T()) throw division_by_zero();
+    if (y == T(-1)) return T(); // The division can overflow
+    return x%y;
+  }
+};
+
 RINGING_END_ANON_NAMESPACE
 
 shared_pointer<expression::node> 
@@ -559,7 +572,7 @@ expression::parser::split_expr( vector<token>::const_iterator first,
       CASE( minus,      RINGING_PREFIX_STD minus         );
       CASE( times,      RINGING_PREFIX_STD multiplies    );
       CASE( divide,                        safe_divides  );
-      CASE( modulo,     RINGING_PREFIX_STD modulus       );
+      CASE( modulo,                        safe_modulus  );
       CASE( iless,      RINGING_PREFIX_STD less          );
       CASE( igreater,   RINGING_PREFIX_STD greater       );
       CASE( ilesseq,    RINGING_PREFIX_STD less_equal    );
-- 
2.43.0


From 7070560a60d27da94547014ea63d1379da4b5c80 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 03:36:20 +0000
Subject: [PATCH 125/174] fix: methsearch: report unmatched brackets in
 expressions and commands

---
 apps/methsearch/format.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index 8df0902..bc50c35 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -599,13 +599,13 @@ format_string::format_string( const string &infmt,
       *outfmts.top() << *iter;
     }
     else if ( *iter == ')' && in_expr ) {
-      if ( parens.top() != '(' )
+      if ( parens.empty() || parens.top() != '(' )
         throw argument_error( "Unmatched parenthesis in $[ ] expression" );
       parens.pop();
       *outfmts.top() << *iter;
     }
     else if ( *iter == ']' && in_expr ) {
-      if ( parens.top() != '[' )
+      if ( parens.empty() || parens.top() != '[' )
         throw argument_error( "Unmatched brackets in $[ ] expression" );
 
       string expr( *outfmts.top() );
@@ -636,6 +636,11 @@ format_string::format_string( const string &infmt,
       *outfmts.top() << *iter;
   }
 
+  if ( !parens.empty() )
+    throw argument_error
+      ( parens.top() == '`' ? "Unterminated $( ) command" 
+                            : "Unmatched brackets in expression" );
+
   assert( type == require_type ? in_expr : !in_expr );
 
   if ( line_break )
-- 
2.43.0


From 093ee7bcd911e3826a4a5a7bed2dd25d1d3a3887 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 03:36:20 +0000
Subject: [PATCH 126/174] fix: methsearch: allow ?: as the second argument of
 ?: without parentheses

---
 apps/methsearch/expression.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apps/methsearch/expression.cpp b/apps/methsearch/expression.cpp
index 15f5bc8..e7919a0 100644
--- a/apps/methsearch/expression.cpp
+++ b/apps/methsearch/expression.cpp
@@ -740,12 +740,17 @@ expression::parser::make_node( vector<token>::const_iterator first,
     // We have a ?, now look for a :
     if ( i != last )
       {
+	int nested = 0; // The number of further ?s that need a :
 	for (;;)
 	  {
 	    if ( i->type() == open_paren )
 	      ++depth;
 	    else if ( i->type() == close_paren )
 	      --depth;
+	    else if ( i->type() == question && depth == 0 )
+	      ++nested;
+	    else if ( i->type() == colon && depth == 0 && nested )
+	      --nested;
 	    else if ( i->type() == colon && depth == 0 )
 	      {
 		if ( i == qmark+1 )
-- 
2.43.0


From 1af7784db14f2f504e5d07bdf2afefab395d07ef Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 03:36:44 +0000
Subject: [PATCH 127/174] fix: methsearch: allow brackets in the string
 literals of an expression

---
 apps/methsearch/format.cpp | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index bc50c35..64acf02 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -341,6 +341,24 @@ static int parse_xdigit(char c)
   else
     throw argument_error("Invalid \\xNN character escape sequence");
 }
+
+// Keep track of the string literals in an expression, as brackets and 
+// parentheses in them are literal.  The quote that opened the current string 
+// literal (if any) is kept on the stack of open parentheses.
+static bool in_string_literal( stack<char> const& parens )
+{
+  return !parens.empty() && ( parens.top() == '"' || parens.top() == '\'' );
+}
+
+static void handle_quote( char c, stack<char>& parens )
+{
+  if ( c != '"' && c != '\'' ) 
+    return;
+  else if ( !in_string_literal(parens) ) 
+    parens.push(c);
+  else if ( parens.top() == c )
+    parens.pop();
+}
 RINGING_END_ANON_NAMESPACE
 
 void format_string::print_method( const method_properties &props, 
@@ -563,7 +581,10 @@ format_string::format_string( const string &infmt,
           *outfmts.top() << char(value);
         } break;
         // For everything else, \x -> literal x
-        default:  *outfmts.top() << *iter; break;
+        default:  
+          if ( in_expr ) handle_quote( *iter, parens );
+          *outfmts.top() << *iter; 
+          break;
       }
     }
     else if ( *iter == ')' && in_exec_expr ) {
@@ -594,17 +615,17 @@ format_string::format_string( const string &infmt,
                               << e.what() );
       }
     }
-    else if ( *iter == '(' && in_expr ) {
+    else if ( *iter == '(' && in_expr && !in_string_literal(parens) ) {
       parens.push(*iter);
       *outfmts.top() << *iter;
     }
-    else if ( *iter == ')' && in_expr ) {
+    else if ( *iter == ')' && in_expr && !in_string_literal(parens) ) {
       if ( parens.empty() || parens.top() != '(' )
         throw argument_error( "Unmatched parenthesis in $[ ] expression" );
       parens.pop();
       *outfmts.top() << *iter;
     }
-    else if ( *iter == ']' && in_expr ) {
+    else if ( *iter == ']' && in_expr && !in_string_literal(parens) ) {
       if ( parens.empty() || parens.top() != '[' )
         throw argument_error( "Unmatched brackets in $[ ] expression" );
 
@@ -632,14 +653,17 @@ format_string::format_string( const string &infmt,
                               << e.what() );
       }
     }
-    else 
+    else {
+      if ( in_expr ) handle_quote( *iter, parens );
       *outfmts.top() << *iter;
+    }
   }
 
   if ( !parens.empty() )
     throw argument_error
-      ( parens.top() == '`' ? "Unterminated $( ) command" 
-                            : "Unmatched brackets in expression" );
+      ( parens.top() == '`'         ? "Unterminated $( ) command" 
+        : in_string_literal(parens) ? "Unterminated string in expression"
+                                    : "Unmatched brackets in expression" );
 
   assert( type == require_type ? in_expr : !in_expr );
 
-- 
2.43.0


From b945afebeae452598997c7bb416fcafe9b4dbc97 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 03:36:44 +0000
Subject: [PATCH 128/174] fix: methsearch: refuse $$, $% and $) as values in an
 expression

---
 apps/methsearch/expression.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/expression.cpp b/apps/methsearch/expression.cpp
index e7919a0..70c715d 100644
--- a/apps/methsearch/expression.cpp
+++ b/apps/methsearch/expression.cpp
@@ -860,7 +860,8 @@ public:
       case iequals: case inoteq: case sequals: case snoteq: 
       case logand: case logor: case match: case comma: case string_lit: 
       case kwd_suppress: case kwd_abort: case subexpr:
-	return;
+	// A lone dollar is not a variable
+	if ( t.type() != variable || t.size() > 1 ) return;
     
     throw argument_error( make_string() << "Unknown token in input: " << t );
   }
-- 
2.43.0


From a14ef8f0e0fc8169560ccc3ff49b15482ead93fd Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 03:36:44 +0000
Subject: [PATCH 129/174] fix: methsearch: do not print part of the method on
 which the search is aborted

---
 apps/methsearch/format.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index 64acf02..a0def8c 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -312,7 +312,6 @@ void histogram_entry::print( ostream &os2, RINGING_ULLONG count ) const
           return;
 
         case script_exception::abort_search:
-          os2 << string(os) << flush;
           throw exit_exception();
           
         default:
-- 
2.43.0


From df84109aaf3b74efd56da3c26aa3f46fce837805 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 03:37:30 +0000
Subject: [PATCH 130/174] fix: methsearch: suppress methods from an expression
 inside a command

---
 apps/methsearch/format.cpp | 2 ++
 apps/methsearch/format.h   | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index a0def8c..63e8ba4 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -309,6 +309,7 @@ void histogram_entry::print( ostream &os2, RINGING_ULLONG count ) const
       switch ( sc.type() )
         {
         case script_exception::suppress_output:
+          if ( f.nested ) throw;
           return;
 
         case script_exception::abort_search:
@@ -368,6 +369,7 @@ void format_string::print_method( const method_properties &props,
 
 format_string::format_string( const string &infmt, 
                               format_string::format_type type )
+  : nested( type == preparsed_type )
 {
   if ( type == preparsed_type ) {
     fmt = infmt; 
diff --git a/apps/methsearch/format.h b/apps/methsearch/format.h
index 2e9ce0d..819d1f8 100644
--- a/apps/methsearch/format.h
+++ b/apps/methsearch/format.h
@@ -103,6 +103,8 @@ struct format_string
   explicit format_string( const string &fmt = "", 
 			  format_type type = normal_type );
 
+  // If the format is preparsed_type, it is nested in an expression, and any
+  // script_exception is left for whatever is evaluating that to handle.
   void print_method( const method_properties &m, ostream &os ) const;
   void add_method_to_stats( const method_properties &m ) const;
 
@@ -121,6 +123,7 @@ struct format_string
 private:
   friend class histogram_entry;
   string fmt;
+  bool nested;
 };
 
 size_t parse_requirement( const string& str );
-- 
2.43.0


From ef7559cb7f7296c85c06a58441e99d97bef178fb Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 03:38:35 +0000
Subject: [PATCH 131/174] fix: methsearch: allow suppress and abort in -H, and
 evaluate its expressions once

---
 apps/methsearch/format.cpp | 92 +++++++++++++++++++++++---------------
 1 file changed, 56 insertions(+), 36 deletions(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index 63e8ba4..10d2709 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -181,6 +181,9 @@ public:
 
   void print( ostream &os, RINGING_ULLONG count ) const;
 
+  // Evaluate the variables once and for all, so that entries can be compared.
+  void evaluate();
+
   RINGING_FAKE_DEFAULT_CONSTRUCTOR( histogram_entry )
 
 private:
@@ -189,6 +192,9 @@ private:
   const format_string &f;
 
   method_properties props;
+
+  bool suppressed;
+  vector<string> vals;  // The values of f.vars, once evaluated
 };
 
 RINGING_START_ANON_NAMESPACE
@@ -210,50 +216,56 @@ bool histogram_entry::cmp::operator()( const histogram_entry &x,
 {
   assert( &x.f == &y.f );
 
-  for ( vector< pair< pair<int,int>, string> >::const_iterator 
-          i( x.f.vars.begin() ), e( x.f.vars.end() );  i != e;  ++i )
-    {
-      // These are not taken into account when comparing strings
-      // for stats.  For '%', '$' and ')' this is because they are constant,
-      // and for 'c' it's because it's still unknown.
-      if ( i->second == "%" || i->second == "$" || i->second == ")" 
-           || i->second == "c" )
-        continue;  
-
-      string xval, yval;
-
-      if ( i->second == "*" ) {
-        // TODO: We should cache these in case they contain lengthy 
-        // command invocations and/or non-deterministic output
-        xval = expression_cache::evaluate(i->first.first, x.props);
-        yval = expression_cache::evaluate(i->first.first, y.props);
-      }
-      else {
-        xval = get_property_or_error( x.props, i->first, i->second );
-        yval = get_property_or_error( y.props, i->first, i->second );
-      }
+  if ( x.suppressed != y.suppressed )
+    return x.suppressed < y.suppressed;
 
-      if ( xval < yval ) 
-        return true;
-      else if ( xval > yval )
-        return false;
-    }
-
-  // They're equal
-  return false;
+  return x.vals < y.vals;
 }
 
 histogram_entry::histogram_entry( const format_string &f, 
                                   const method_properties &props )
-  : f( f ), props( props )
+  : f( f ), props( props ), suppressed( false )
 {
 }
 
+void histogram_entry::evaluate()
+{
+  try 
+    {
+      for ( vector< pair< pair<int,int>, string> >::const_iterator 
+              i( f.vars.begin() ), e( f.vars.end() );  i != e;  ++i )
+        {
+          // These are not taken into account when comparing strings
+          // for stats.  For '%', '$' and ')' this is because they are 
+          // constant, and for 'c' it's because it's still unknown.
+          if ( i->second == "%" || i->second == "$" || i->second == ")" 
+               || i->second == "c" )
+            continue;
+          else if ( i->second == "*" )
+            vals.push_back( expression_cache::evaluate( i->first.first, 
+                                                        props ) );
+          else
+            vals.push_back( get_property_or_error( props, i->first, 
+                                                   i->second ) );
+        }
+    }
+  catch ( const script_exception& sc )
+    {
+      if ( sc.type() == script_exception::abort_search )
+        throw exit_exception();
+
+      suppressed = true;
+      vals.clear();
+    }
+}
 
 
 void histogram_entry::print( ostream &os2, RINGING_ULLONG count ) const
 {
   make_string os;
+  size_t n = 0; // The number of vals already used
+
+  if ( suppressed ) return;
 
   try 
     {
@@ -289,13 +301,19 @@ void histogram_entry::print( ostream &os2, RINGING_ULLONG count ) const
                   break;
 
                 case '*': 
-                  os << expression_cache::evaluate(num_opt, props); 
+                  if ( n < vals.size() )
+                    os << vals[n++];
+                  else
+                    os << expression_cache::evaluate(num_opt, props); 
                   break;
 
                 default:
-                  os << get_property_or_error( props, 
-                                               make_pair(num_opt, num2_opt), 
-                                               string(1, *iter) );
+                  if ( n < vals.size() )
+                    os << vals[n++];
+                  else
+                    os << get_property_or_error( props, 
+                                                 make_pair(num_opt, num2_opt), 
+                                                 string(1, *iter) );
                 }
             }
           else
@@ -326,7 +344,9 @@ void histogram_entry::print( ostream &os2, RINGING_ULLONG count ) const
 
 void format_string::add_method_to_stats( const method_properties &props ) const
 {
-  statistics::add_entry( histogram_entry( *this, props ) );
+  histogram_entry entry( *this, props );
+  entry.evaluate();
+  statistics::add_entry( entry );
 }
 
 RINGING_START_ANON_NAMESPACE
-- 
2.43.0


From 870a8102a5024cb428d2d16e00a2f264b6a6891b Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 03:49:16 +0000
Subject: [PATCH 132/174] fix: methsearch: count the strokes of -M leads and
 half-leads from a lead head at backstroke

---
 apps/methsearch/music.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/music.cpp b/apps/methsearch/music.cpp
index f62c2b8..8acb627 100644
--- a/apps/methsearch/music.cpp
+++ b/apps/methsearch/music.cpp
@@ -203,6 +203,7 @@ int musical_analysis::analyse( const method &m )
     {
       vector< row > rows;
       row r = mi->first.first; // Set to the course head
+      bool backstroke = false; // Whether the first of rows is a backstroke
 
       switch ( mi->first.second ) {
         case analyser::course:
@@ -211,17 +212,22 @@ int musical_analysis::analyse( const method &m )
           while ( r != mi->first.first );
           break;
 
+        // The method is assumed to be rung with its first non-rounds row at
+        // handstroke, so the lead head is rung at backstroke.
         case analyser::lead:
+          backstroke = true;
           transform( m.begin(), m.end(), 
                      back_inserter(rows), post_permute(r) );
           break;
 
         case analyser::half_lead:
+          backstroke = true;
           transform( m.begin(), m.begin() + m.size()/2, 
                      back_inserter(rows), post_permute(r) );
           break;
 
         case analyser::half_lead_2:
+          backstroke = m.size()/2 % 2 == 0;
           transform( m.begin() + m.size()/2, m.end(),
                      back_inserter(rows), post_permute(r) );
           break;
@@ -230,18 +236,20 @@ int musical_analysis::analyse( const method &m )
 	  transform( m.rbegin() + m.size()/2 + 1, m.rend(),
                      back_inserter(rows), post_permute(r) );
           rows.push_back(r);
+          backstroke = rows.size() % 2 == 1;
           break;
 
         case analyser::half_lead_2r:
           transform( m.rbegin() + 1, m.rbegin() + m.size()/2 + 1,
                      back_inserter(rows), post_permute(r) );
+          backstroke = m.size() % 2 == 1;
           break;
 
         default:
           assert(false);
       }
 
-      mi->second.process_rows( rows.begin(), rows.end() );  
+      mi->second.process_rows( rows.begin(), rows.end(), backstroke );  
       score += mi->second.get_score();
     }
 
-- 
2.43.0


From 8c777c2c9e72fda524478014fac4fd9cff3afc30 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 03:49:24 +0000
Subject: [PATCH 133/174] fix: methsearch: default the row of a -M block to all
 the rows of the previous one

---
 apps/methsearch/music.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/apps/methsearch/music.cpp b/apps/methsearch/music.cpp
index 8acb627..d136fda 100644
--- a/apps/methsearch/music.cpp
+++ b/apps/methsearch/music.cpp
@@ -97,6 +97,9 @@ musical_analysis::analyser::analyser( int bells )
     make_pair( row(bells), // Course or lead head -- plain course by default
                course ) ); // Look at the whole course by default
 
+  // The rows of the previous -Mtype=row option, used when =row is omitted
+  vector< row > heads( 1, row(bells) );
+
   // We set this to true even though we haven't had any patterns.
   // This is because we want the first -Mtype=row option to reset
   // the default block (above) rather than augment it.
@@ -116,7 +119,7 @@ musical_analysis::analyser::analyser( int bells )
       if ( opt == "course" || opt == "lead" || opt == "halflead" ||
            opt == "2halflead" || opt == "2rhalflead" || opt == "rhalflead" )
         {
-          length len = blocks.back().second;
+          length len = course;
           if (opt == "course") len = course;
           else if (opt == "lead") len = lead;
           else if (opt == "halflead") len = half_lead;
@@ -124,7 +127,6 @@ musical_analysis::analyser::analyser( int bells )
           else if (opt == "2rhalflead") len = half_lead_2r;
           else if (opt == "rhalflead") len = half_lead_r;
 
-          row lh = blocks.back().first;
           row_calc::flags rcf = static_cast<row_calc::flags>
             ( row_calc::allow_implicit_treble | row_calc::allow_row_promotion );
           scoped_pointer<row_calc> rc;
@@ -144,16 +146,18 @@ musical_analysis::analyser::analyser( int bells )
           }
           if (rc)
             try {
+              heads.clear();
               for ( row_calc::const_iterator i=rc->begin(), e=rc->end(); 
                       i!=e; ++i )
-                blocks.push_back( make_pair( *i * row(bells), len ) );
+                heads.push_back( *i * row(bells) );
             } catch ( exception const& e ) {
               cerr << "Music course head produces invalid row: " 
                    << e.what() << endl;
               exit(1);
             }
-           else
-            blocks.push_back( make_pair( lh, len ) );
+          for ( vector<row>::const_iterator
+                  i = heads.begin(), e = heads.end(); i != e; ++i )
+            blocks.push_back( make_pair( *i, len ) );
 
           continue;
         }
-- 
2.43.0


From 23208a77203ace8c8e13eea5a8dccd8e9ebd74ce Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 03:51:32 +0000
Subject: [PATCH 134/174] fix: methsearch: report an unknown named pattern in
 --row-match

---
 apps/methsearch/prog_args.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/prog_args.cpp b/apps/methsearch/prog_args.cpp
index 00fb1d9..f5d57c3 100644
--- a/apps/methsearch/prog_args.cpp
+++ b/apps/methsearch/prog_args.cpp
@@ -1143,7 +1143,7 @@ bool arguments::validate_bells( arg_parser* ap )
       else
         mus.push_back( music_details( i->substr(j+1) ) );
     }
-    catch ( row_wildcard::invalid_pattern const& ) { 
+    catch ( exception const& ) { 
       if (ap) ap->error("Unable to parse row match argument" );
       return false;
     }
-- 
2.43.0


From ad1bc3cd46528d3245161d5a6cafdb19ce6a6f44 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 04:41:15 +0000
Subject: [PATCH 135/174] fix: number the first page of a landscape PostScript
 document

---
 ringing/print_ps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/print_ps.cpp b/ringing/print_ps.cpp
index b095f4d..46b6495 100644
--- a/ringing/print_ps.cpp
+++ b/ringing/print_ps.cpp
@@ -174,7 +174,7 @@ printpage_ps::printpage_ps(ostream& o, const dimension& page_height)
 {
   pages = 1;
   os << "%!PS-Adobe-3.0\n" << "%%Pages: (atend)\n%%Orientation: Landscape\n"
-     << header_string << def_string << "%%Page: 1\nsave\n";
+     << header_string << def_string << "%%Page: 1 1\nsave\n";
   ph = static_cast<int>(page_height.in_points());
   landscape_mode();
 }
-- 
2.43.0


From 9f1e5db58fe0a0e02d4584db506973dc873508c6 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 04:41:15 +0000
Subject: [PATCH 136/174] fix: end the line before %%EOF when a PostScript
 document needs no fonts

---
 ringing/print_ps.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ringing/print_ps.cpp b/ringing/print_ps.cpp
index 46b6495..497c397 100644
--- a/ringing/print_ps.cpp
+++ b/ringing/print_ps.cpp
@@ -199,9 +199,8 @@ printpage_ps::~printpage_ps()
     os << " font ";
     copy(used_fonts.begin(), used_fonts.end(), 
 	 ostream_iterator<string>(os, " "));
-    os << '\n';
   } 
-  os << "%%EOF\n";
+  os << "\n%%EOF\n";
 }
 
 void printpage_ps::new_page()
-- 
2.43.0


From ef57478c512b981b2e8c197202a76ed1050a4f5d Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 04:41:15 +0000
Subject: [PATCH 137/174] fix: escape characters that cannot be printed as
 three octal digits in PostScript and PDF strings

---
 ringing/print_pdf.cpp | 6 ++++--
 ringing/print_ps.cpp  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ringing/print_pdf.cpp b/ringing/print_pdf.cpp
index 7d2e50b..36058b6 100644
--- a/ringing/print_pdf.cpp
+++ b/ringing/print_pdf.cpp
@@ -191,10 +191,12 @@ void pdf_file::output_string(const string& s)
       case ')' : os << "\\)"; break;
       case '\\': os << "\\\\"; break;
       default:
-	if(isprint(*i))
+	if(isprint(static_cast<unsigned char>(*i)))
 	  os << *i;
 	else
-	  os << '\\' << setw(3) << static_cast<int>(*i);
+	  os << '\\' << setfill('0') << setw(3)
+	     << static_cast<int>(static_cast<unsigned char>(*i))
+	     << setfill(' ');
 	break;
     }
   }
diff --git a/ringing/print_ps.cpp b/ringing/print_ps.cpp
index 497c397..c251c43 100644
--- a/ringing/print_ps.cpp
+++ b/ringing/print_ps.cpp
@@ -245,10 +245,12 @@ void printpage_ps::write_string(const string& s)
       case ')' : os << "\\)"; break;
       case '\\': os << "\\\\"; break;
       default:
-	if(isprint(*i))
+	if(isprint(static_cast<unsigned char>(*i)))
 	  os << *i;
 	else
-	  os << '\\' << setw(3) << static_cast<int>(*i);
+	  os << '\\' << setfill('0') << setw(3)
+	     << static_cast<int>(static_cast<unsigned char>(*i))
+	     << setfill(' ');
 	break;
     }
   }
-- 
2.43.0


From d2e8e88433a20816edfdffb0dbb97b438f202be8 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 04:41:15 +0000
Subject: [PATCH 138/174] fix: draw no rule before the first one asked for by
 -r A,B

---
 ringing/printm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/printm.cpp b/ringing/printm.cpp
index aae9104..38c3d76 100644
--- a/ringing/printm.cpp
+++ b/ringing/printm.cpp
@@ -87,7 +87,8 @@ bool printmethod::needrule(int i)
   list<pair<int,int> >::const_iterator j;
   for(j = rules.begin(); j != rules.end(); j++)
     if((*j).second) {
-      if(((i+1) % (*j).second) == ((*j).first % (*j).second)) return true;
+      if(i+1 >= (*j).first
+	 && ((i+1) % (*j).second) == ((*j).first % (*j).second)) return true;
     } else {
       if((i+1) == (*j).first) return true;
     }
-- 
2.43.0


From 1608f6a066aa0b75654df064fc14e42d0732f686 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 04:41:15 +0000
Subject: [PATCH 139/174] fix: print calls and lead heads in methods with leads
 of one or two changes

---
 ringing/printm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/printm.cpp b/ringing/printm.cpp
index 38c3d76..37c240c 100644
--- a/ringing/printm.cpp
+++ b/ringing/printm.cpp
@@ -161,7 +161,8 @@ void printmethod::print(printpage& pp)
 	      pr.placebell(placebells);
 	    if(!(opt.flags & printrow::options::numbers))
 	      pr.dot(-1);
-	  } else if(i == (int) (b.size() - 2)) {
+	  }
+	  if(i == (int) (b.size() - 2)) {
 		  // print calling positions
 		  if (char pos=call(ic++)) {
 			  pr.text(string("-")+pos,opt.xspace/2,text_style::left,false,true);
-- 
2.43.0


From e16b217ae8be34329e9ce504f3ec8b7a7f2004ea Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 04:41:15 +0000
Subject: [PATCH 140/174] fix: print the numbers at the end of a last column
 which is not full

---
 ringing/printm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ringing/printm.cpp b/ringing/printm.cpp
index 37c240c..9c2fa66 100644
--- a/ringing/printm.cpp
+++ b/ringing/printm.cpp
@@ -176,7 +176,9 @@ void printmethod::print(printpage& pp)
 	      pr.set_options(opt);
 	    }
 	  }
-	  if(number_mode == miss_column && row_count == rows_per_column - 1) {
+	  if(number_mode == miss_column 
+	     && (row_count == rows_per_column - 1
+		 || total_row_count == total_rows - 1)) {
 	    // Last row of a column - print the numbers
 	    opt.flags &= ~printrow::options::miss_numbers;
 	    pr.set_options(opt);
-- 
2.43.0


From 6ca728ebe20aa0db63c396bc0e9454b0046c050e Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 04:41:15 +0000
Subject: [PATCH 141/174] fix: do not divide by zero in psline when -x or -y is
 given without -F

---
 apps/psline/psline.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/apps/psline/psline.cpp b/apps/psline/psline.cpp
index 9759b55..bce829a 100644
--- a/apps/psline/psline.cpp
+++ b/apps/psline/psline.cpp
@@ -754,7 +754,8 @@ int main(int argc, char *argv[])
       args.fitheight.set_float(args.fitheight.in_points() 
 			       - args.title_style.size * 0.2f, 1);
     
-    // Now fit to the space
+    // Now fit to the space, if there is one
+    const bool fit = args.fitwidth != 0;
     if(args.leads_per_column || args.rows_per_column) {
       if(args.leads_per_column)
 	pm.rows_per_column = args.leads_per_column * m.length();
@@ -778,7 +779,9 @@ int main(int argc, char *argv[])
 				  args.pages * pm.sets_per_page
 				  * pm.rows_per_column);
       }
-      pm.scale_to_space(args.fitwidth, args.fitheight, args.numbers ? 1.f : 2.f);
+      if(fit)
+	pm.scale_to_space(args.fitwidth, args.fitheight, 
+			  args.numbers ? 1.f : 2.f);
     } else {
       if(args.columns_per_set) {
 	pm.columns_per_set = args.columns_per_set;
@@ -789,8 +792,9 @@ int main(int argc, char *argv[])
 				  args.pages * pm.columns_per_set
 				  * pm.sets_per_page * m.length())
 	  * m.length();
-	pm.scale_to_space(args.fitwidth, args.fitheight, 
-			  args.numbers ? 1.f : 2.f);
+	if(fit)
+	  pm.scale_to_space(args.fitwidth, args.fitheight, 
+			    args.numbers ? 1.f : 2.f);
       } else {
 	if(args.sets_per_page) {
 	  pm.rows_per_column = m.length();
@@ -799,9 +803,10 @@ int main(int argc, char *argv[])
 	  pm.columns_per_set = divu(pm.total_rows,
 				    args.pages * pm.sets_per_page
 				    * pm.rows_per_column);
-	  pm.scale_to_space(args.fitwidth, args.fitheight, 
-			    args.numbers ? 1.f : 2.f);
-	} else {
+	  if(fit)
+	    pm.scale_to_space(args.fitwidth, args.fitheight, 
+			      args.numbers ? 1.f : 2.f);
+	} else if(fit) {
 	  if(!args.pages) args.pages = 1;
           int tr = pm.total_rows;
 	  pm.total_rows = divu(tr, args.pages * m.length()) * m.length();
-- 
2.43.0


From d914cab90e69a9ca7f95d30eee51c235cba51c1d Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 04:41:15 +0000
Subject: [PATCH 142/174] fix: refuse more than two numbers in psline -r

---
 apps/psline/psline.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/psline/psline.cpp b/apps/psline/psline.cpp
index bce829a..9836f4d 100644
--- a/apps/psline/psline.cpp
+++ b/apps/psline/psline.cpp
@@ -557,8 +557,10 @@ bool myopt::process(const string& arg, const arg_parser& ap) const
 	if(!parse_int(next_bit(arg, s), a)) return false;
 	if(s != arg.end()) {
 	  if(!parse_int(next_bit(arg, s), b)) return false;
-	  if(s != arg.end())
+	  if(s != arg.end()) {
 	    cerr << "Too many arguments: \"" << arg << "\"\n";
+	    return false;
+	  }
 	}
 	args.rules.push_back(pair<int,int>(a,b));
       } else
-- 
2.43.0


From 705722cbc6947de9f0d909c0a4115ab4a28b7d29 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 04:41:15 +0000
Subject: [PATCH 143/174] fix: make psline -b without an argument show the
 place bells of the first working bell drawn

---
 apps/psline/psline.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/apps/psline/psline.cpp b/apps/psline/psline.cpp
index 9836f4d..f6f4237 100644
--- a/apps/psline/psline.cpp
+++ b/apps/psline/psline.cpp
@@ -467,7 +467,8 @@ bool myopt::process(const string& arg, const arg_parser& ap) const
 	  }
 	  args.placebells = b;
 	}
-      }
+      } else
+	args.placebells = -3;
       break;
     case 't' :
       if(!arg.empty()) {
@@ -718,14 +719,14 @@ int main(int argc, char *argv[])
 	  pm.rules.push_back(pair<int,int>(m.length(),0));
       }
     }
-    if(args.placebells == -2) {
+    if(args.placebells == -2 || args.placebells == -3) {
       bell b;
       pm.placebells = -1;
       for(b = 0; b < m.bells(); b = b + 1)
 	if(lh[b] != b && pm.opt.lines.find(b) != pm.opt.lines.end()) {
 	  if(pm.placebells == -1)
 	    pm.placebells = b;
-	  else {
+	  else if(args.placebells == -2) {
 	    pm.placebells = -1;
 	    break;
 	  }
-- 
2.43.0


From 233423fee5675748a2c7a4d8bce286ab9f3078fd Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 04:41:15 +0000
Subject: [PATCH 144/174] fix: refuse to write an EPS file of more than one
 page

---
 apps/psline/psline.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/apps/psline/psline.cpp b/apps/psline/psline.cpp
index f6f4237..684cc19 100644
--- a/apps/psline/psline.cpp
+++ b/apps/psline/psline.cpp
@@ -820,6 +820,14 @@ int main(int argc, char *argv[])
       }
     }
 
+    // There is no such thing as a second page in EPS
+    if(args.format == eps && pm.sets_per_page 
+       && pm.total_rows > pm.rows_per_column * pm.columns_per_set
+			  * pm.sets_per_page) {
+      cerr << argv[0] << ": An EPS file can only have one page\n";
+      return 1;
+    }
+
     // Set up the things which override the fitting, and everything else
     if(!args.font.empty()) pm.opt.style.font = args.font;
     if(args.font_size) pm.opt.style.size = args.font_size;
-- 
2.43.0


From 02a41b60bddfa9b16471c6f56afe6bfcb5cc78e5 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 04:41:15 +0000
Subject: [PATCH 145/174] fix: refuse numbers of rows, leads, columns and pages
 which are not positive in psline

---
 apps/psline/psline.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/apps/psline/psline.cpp b/apps/psline/psline.cpp
index 684cc19..472dc7b 100644
--- a/apps/psline/psline.cpp
+++ b/apps/psline/psline.cpp
@@ -97,6 +97,16 @@ bool parse_int(const string& arg, int& i)
   return true;
 }
 
+bool parse_positive(const string& arg, int& i)
+{
+  if(!parse_int(arg, i)) return false;
+  if(i <= 0) {
+    cerr << "Argument must be positive: \"" << arg << "\"\n";
+    return false;
+  }
+  return true;
+}
+
 bool parse_float(const string& arg, float& f)
 {
   try {
@@ -319,22 +329,22 @@ bool myopt::process(const string& arg, const arg_parser& ap) const
       break;
     case 'i' :
       args.rows_per_column = 0;
-      return parse_int(arg, args.leads_per_column);
+      return parse_positive(arg, args.leads_per_column);
     case 'I' :
       args.leads_per_column = 0;
-      return parse_int(arg, args.rows_per_column);
+      return parse_positive(arg, args.rows_per_column);
     case 'j' :
       args.total_rows = 0;
-      return parse_int(arg, args.total_leads);
+      return parse_positive(arg, args.total_leads);
     case 'J' :
       args.total_leads = 0;
-      return parse_int(arg, args.total_rows);
+      return parse_positive(arg, args.total_rows);
     case 'g' :
-      return parse_int(arg, args.pages);
+      return parse_positive(arg, args.pages);
     case 'd' :
-      return parse_int(arg, args.sets_per_page);
+      return parse_positive(arg, args.sets_per_page);
     case 'k' :
-      return parse_int(arg, args.columns_per_set);
+      return parse_positive(arg, args.columns_per_set);
     case 'x' :
       args.fit = false;
       return parse_dimension(arg, args.xspace);
-- 
2.43.0


From d7e0b94cf96e8646b5c1da55a40b37a126cf9cf3 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 04:41:15 +0000
Subject: [PATCH 146/174] fix: report a number of bells which is not a number
 in printmethod

---
 apps/printmethod/main.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/apps/printmethod/main.cpp b/apps/printmethod/main.cpp
index a3ba3f1..80b40e3 100644
--- a/apps/printmethod/main.cpp
+++ b/apps/printmethod/main.cpp
@@ -135,7 +135,14 @@ bool arguments::validate( arg_parser &ap )
 {
   size_t i = methstr.find(':');
   if ( i != string::npos ) {
-    unsigned b = lexical_cast<unsigned>( methstr.substr(0,i) );
+    unsigned b;
+    try {
+      b = lexical_cast<unsigned>( methstr.substr(0,i) );
+    }
+    catch ( bad_lexical_cast const& ) {
+      ap.error( "The number of bells must be an integer" );
+      return false;
+    }
     if (bells && b != bells) {
       ap.error("Mismatch between number of bells specified");
       return false;
-- 
2.43.0


From 21f073a5f4d9791304f01a3b283befda0afc815b Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 05:11:25 +0000
Subject: [PATCH 147/174] fix: leave a debugging message out of splices

---
 apps/splices/splices.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index 9594008..2eb3b27 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -553,8 +553,6 @@ string splices::test_splice( method const& a, vector<row> const& b,
   if ( args.only_n_leads != -1 && sg.size() != args.only_n_leads * 2 )
     return string();
 
-cerr << "Got " << sg.size() << endl;
-
   string desc( describe_splice(sg) );
   if ( !args.group_splices /* && !args.filter_mode */ ) {
     cout << name_or_pn(args, a);
-- 
2.43.0


From a634c6441989626408ebd69a40ada2c9c70730f0 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 05:11:25 +0000
Subject: [PATCH 148/174] fix: bracket lead splices in splices -g when -l is
 given too

They were never stored when -l asked for splices of some other length.
---
 apps/splices/splices.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index 2eb3b27..b3bf792 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -547,10 +547,7 @@ string splices::test_splice( method const& a, vector<row> const& b,
 
   if ( args.only_n_leads != -1 && sg.size() != args.only_n_leads * 2 &&
        // Need to store lead splices if we're to group them
-       ( !args.group_splices && !args.filter_mode || sg.size() != 2 ) )
-    return string();
-
-  if ( args.only_n_leads != -1 && sg.size() != args.only_n_leads * 2 )
+       ( !args.group_splices || sg.size() != 2 ) )
     return string();
 
   string desc( describe_splice(sg) );
-- 
2.43.0


From 479175de725fd02bd1914e690e95b936393036be Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 05:11:25 +0000
Subject: [PATCH 149/174] fix: print only methods in splices -I

The splices were printed between them, so the output was not a library; and
with --rows-file no methods were printed.
---
 apps/splices/splices.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index b3bf792..07a935a 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -551,7 +551,7 @@ string splices::test_splice( method const& a, vector<row> const& b,
     return string();
 
   string desc( describe_splice(sg) );
-  if ( !args.group_splices /* && !args.filter_mode */ ) {
+  if ( !args.group_splices && !args.filter_mode ) {
     cout << name_or_pn(args, a);
     if ( args.meth.size() != 1 ) 
       cout << " / " << b_name;
@@ -608,7 +608,7 @@ void splices::find_splices( library const& lib )
     bool filter_ok = false;
 
     if ( args.read_rows || !args.rows_file.empty() ) {
-      test_splice( m, args.rows );
+      filter_ok = test_splice( m, args.rows ).size();
     }
 
     else if ( args.meth.size() == 1 ) {
-- 
2.43.0


From 74464f1357c20a8be0eee5d19082c3447fd5b623 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 05:29:50 +0000
Subject: [PATCH 150/174] fix: stop splices counting forever when nothing is
 false or on one or two bells

With -o, or -h and -o, there may be no falseness at all, and the group made
of it had no bells; the factorial of a negative number was then taken.
---
 apps/splices/splices.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index 07a935a..fb5ac40 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -497,6 +497,10 @@ string splices::describe_splice( group const& sg ) const
   make_string os;
   os << (sg.size()/2) << "-lead";
 
+  // There is neither a pivot nor a swapping pair on fewer than three bells
+  if (sg.bells() < hunts + 2)
+    return os;
+
   int const f2 = factorial(sg.bells() - hunts - 2);
   int const f1 = f2 * (sg.bells() - hunts - 1);
 
@@ -536,7 +540,8 @@ string splices::test_splice( method const& a, vector<row> const& b,
     return string();
   }
 
-  group sg( ft.generate_group() );
+  group sg(( row(args.bells) ));
+  if (ft.size()) sg = ft.generate_group();
   if ( args.print_group ) {
     copy( sg.begin(), sg.end(), ostream_iterator<row>(cout, "\n") );
     return string();
-- 
2.43.0


From fc29d6fcccce1d57b08c263d689df3cab8744a32 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 05:40:29 +0000
Subject: [PATCH 151/174] fix: do not let a lead be false with its own images
 under the part-ends in spliceplan

---
 apps/spliceplan/spliceplan.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/apps/spliceplan/spliceplan.cpp b/apps/spliceplan/spliceplan.cpp
index ec9700c..9302c0d 100644
--- a/apps/spliceplan/spliceplan.cpp
+++ b/apps/spliceplan/spliceplan.cpp
@@ -383,6 +383,7 @@ private:
   void unset_method( row_t const& lh, method_ptr const& m );
   void recheck_pos_map( row_t const& lh, method_ptr const& m,
                         vector<pair<row_t, method_ptr> >& backtrack );
+  bool is_false_in_parts( row_t const& lh, method_ptr const& m ) const;
   bool are_false( row_t const& lh1, method_ptr const& m1, 
                   row_t const& lh2, method_ptr const& m2 ) const;
   void done_with_method( method_ptr const& m );
@@ -455,6 +456,10 @@ bool searcher::is_possible( row_t const& lh,
   if ( le != lh && free_lhs.find(le) == free_lhs.end() )
     return false;
 
+  // Is the lead true against its own images in the other parts?
+  if ( is_false_in_parts( lh, m ) )
+    return false;
+
   // Is the lead true agaisnt all the methods currently chosen?
   for ( spliced_plan::const_iterator ci = comp.begin(), ce = comp.end(); 
         ci != ce; ++ci ) 
@@ -484,6 +489,27 @@ void searcher::init_search()
         possibles.insert( make_pair( *li, mi ) );
 }
 
+bool searcher::is_false_in_parts( row_t const& lh, 
+                                  method_ptr const& m ) const
+{
+  map<method_pair, falseness_tab>::const_iterator
+    fd = false_data.find( make_pair( m, m ) );
+  assert( fd != false_data.end() );
+
+  for ( falseness_tab::const_iterator 
+          fi=fd->second.begin(), fe=fd->second.end(); fi!=fe; ++fi ) {
+    row_t const lh2 = lh * *fi;
+    if ( lh2 == lh || lh2 == lh * m->le )
+      continue;  // The lead itself, rung forwards or backwards
+    for ( vector<row_t>::const_iterator
+            pi=pends.begin(), pe=pends.end(); pi!=pe; ++pi )
+      if ( lh2 == *pi * lh )
+        return true;
+  }
+
+  return false;
+}
+
 bool searcher::are_false( row_t const& lh1, method_ptr const& m1, 
                           row_t const& lh2, method_ptr const& m2 ) const
 {
-- 
2.43.0


From 764bc98deacb002de3bcbdd71c4e54cec0a7b6fd Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 05:40:29 +0000
Subject: [PATCH 152/174] fix: report errors in the methods given to spliceplan
 instead of aborting

---
 apps/spliceplan/spliceplan.cpp | 41 ++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/apps/spliceplan/spliceplan.cpp b/apps/spliceplan/spliceplan.cpp
index 9302c0d..142f3bd 100644
--- a/apps/spliceplan/spliceplan.cpp
+++ b/apps/spliceplan/spliceplan.cpp
@@ -61,7 +61,7 @@ private:
   };
 
 public:
-  method_list( library const& lib, sqmulttab const& mt );
+  method_list( library const& lib, sqmulttab const& mt, bool in_course );
 
   int bells() const { return b; }
 
@@ -76,13 +76,24 @@ private:
   vector<methinfo> data;
 };
 
-method_list::method_list( library const& lib, sqmulttab const& mt )
+method_list::method_list( library const& lib, sqmulttab const& mt,
+                          bool in_course )
   : b( mt.bells() )
 {
   for ( library::const_iterator i(lib.begin()), e(lib.end()); i!=e; ++i ) {
     method m( i->meth() ); 
     m.name( i->get_facet<litelib::payload>() ); 
-    methinfo mi = { m, mt.find( m.lh() * m.back() ) };
+    row const le( m.lh() * m.back() );
+    if ( le[0] != 0 )
+      throw runtime_error( make_string() << "The lead end of " << m.name() 
+                           << " does not have the treble leading" );
+    if ( in_course && le.sign() == -1 )
+      throw runtime_error( make_string() << "The lead end of " << m.name() 
+                           << " is out of course" );
+    if ( le.isrounds() )
+      throw runtime_error( make_string() << "The lead end of " << m.name() 
+                           << " is rounds" );
+    methinfo mi = { m, mt.find( le ) };
     data.push_back( mi );
   }
 }
@@ -408,7 +419,7 @@ private:
 searcher::searcher( arguments const& args )
   : args(args),
     node_count(0), mt(make_multtab()), 
-    meths(litelib(args.bells, cin), *mt), comp(*mt)
+    meths(litelib(args.bells, cin), *mt, args.in_course), comp(*mt)
 {
   init_pends();
   init_falseness();
@@ -799,7 +810,7 @@ private:
 
 analyser::analyser( arguments const& args )
   : args(args),
-    mt(make_multtab()), meths(litelib(args.bells, cin), *mt)
+    mt(make_multtab()), meths(litelib(args.bells, cin), *mt, args.in_course)
 {
 }
 
@@ -900,11 +911,17 @@ int main(int argc, char const* argv[] )
 
   const bool search = true;
 
-  if (search)
-    searcher(args).recurse();
-  else {
-    analyser a(args);
-    for ( int i=1; i<argc; ++i )
-      a.add_plan( argv[i] );
-  } 
+  try {
+    if (search)
+      searcher(args).recurse();
+    else {
+      analyser a(args);
+      for ( int i=1; i<argc; ++i )
+        a.add_plan( argv[i] );
+    } 
+  }
+  catch ( exception const& e ) {
+    cerr << "spliceplan: " << e.what() << endl;
+    return 1;
+  }
 }
-- 
2.43.0


From 8bad27592d6d2da5ace814746c15a7b5ac3f7c49 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 05:40:29 +0000
Subject: [PATCH 153/174] fix: refuse unusable part-ends in spliceplan instead
 of aborting

---
 apps/spliceplan/spliceplan.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/apps/spliceplan/spliceplan.cpp b/apps/spliceplan/spliceplan.cpp
index 142f3bd..6cd50d2 100644
--- a/apps/spliceplan/spliceplan.cpp
+++ b/apps/spliceplan/spliceplan.cpp
@@ -352,7 +352,25 @@ bool arguments::generate_pends( arg_parser& ap )
   for ( vector<string>::const_iterator
           i( pend_strs.begin() ), e( pend_strs.end() ); i != e; ++i )
     {
-      row const g( row(bells) * row(*i) );
+      row g;
+      try {
+        g = row(bells) * row(*i);
+      } 
+      catch ( exception const& e ) {
+        ap.error( make_string() << "Invalid part-end '" << *i << "': "
+                  << e.what() );
+        return false;
+      }
+      if ( g.bells() != bells || g[0] != 0 ) {
+        ap.error( make_string() << "The part-end '" << *i << "' must have"
+                  " the treble leading and not be on too many bells" );
+        return false;
+      }
+      if ( in_course && g.sign() == -1 ) {
+        ap.error( make_string() << "The part-end '" << *i 
+                  << "' is out of course" );
+        return false;
+      }
       gens.push_back(g);
     }
 
-- 
2.43.0


From 6c3fe437616106bd665c16798ce3b6ebe8901dd5 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 05:40:29 +0000
Subject: [PATCH 154/174] fix: fail if spliceplan cannot write a plan

---
 apps/spliceplan/spliceplan.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/spliceplan/spliceplan.cpp b/apps/spliceplan/spliceplan.cpp
index 6cd50d2..380b3e9 100644
--- a/apps/spliceplan/spliceplan.cpp
+++ b/apps/spliceplan/spliceplan.cpp
@@ -673,6 +673,8 @@ void searcher::found( unsigned rotn_count )
     ofstream os( filename.c_str() );
     comp.write_plan(os);
     os.close();
+    if (!os)
+      throw runtime_error( "Unable to write to '" + filename + "'" );
   }
 
   map< method_ptr, unsigned > counts;
-- 
2.43.0


From 8ee6579faece636f4d671a9a1397cd67a9fd5424 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 05:50:17 +0000
Subject: [PATCH 155/174] fix: report a response file that cannot be read

---
 apps/utils/argv.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/apps/utils/argv.cpp b/apps/utils/argv.cpp
index cf00e0f..7b58077 100644
--- a/apps/utils/argv.cpp
+++ b/apps/utils/argv.cpp
@@ -447,6 +447,10 @@ expandargv (arg_parser const& ap, int *argcp, char ***argvp)
         ap.error( make_string() << "Unable to open @file " << filename );
 	exit (1);
       }
+      /* A directory can be opened, but not read.  */
+      if (fgetc (f) == EOF && ferror (f))
+	goto error;
+
       if (fseek (f, 0L, SEEK_END) == -1)
 	goto error;
       pos = ftell (f);
@@ -507,9 +511,13 @@ expandargv (arg_parser const& ap, int *argcp, char ***argvp)
       /* Rescan all of the arguments just read to support response
 	 files that include other response files.  */
       --i;
-    error:
       /* We're all done with the file now.  */
       fclose (f);
+      continue;
+
+    error:
+      ap.error( make_string() << "Unable to read @file " << filename );
+      exit (1);
     }
   return argv_dynamic;
 }
-- 
2.43.0


From 5a0cf468162fc1cf746b844aa824163635c495e7 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 05:54:57 +0000
Subject: [PATCH 156/174] fix: require the leads asked for in fextent -r, and
 refuse ones that cannot be rung

---
 apps/fextent/fextent.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 428a4a8..66cd3ff 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -757,8 +757,14 @@ void state::init_req( const method& m, vector<row> const& required_rows )
       {
 	row const lh( m.lh() );
 	row r2(*i);
-	while ( r2[bells - 1] != bells - 1 )
-	  r2 = lh * r2;
+	if ( flags & whole_courses )
+	  for ( int n=0; n < courselen && r2[bells - 1] != bells - 1; ++n )
+	    r2 = r2 * lh;
+	for ( int b = 0; b < bells; ++b )
+	  if ( r2.bells() != bells || ( b < nh || b >= nh + nw ) && r2[b] != b )
+	    throw runtime_error
+	      ( make_string() << "Error: the row " << *i 
+			      << " cannot be required" );
 	r = mt->find(r2);
       }
 
-- 
2.43.0


From f56539354277e9425f1089ba83875f97ba0cbe4e Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 05:54:57 +0000
Subject: [PATCH 157/174] fix: refuse unusable part-ends in fextent instead of
 aborting

---
 apps/fextent/fextent.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 66cd3ff..90a7f3c 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -194,6 +194,22 @@ bool arguments::generate_pends( arg_parser& ap )
     {
       row const g( row(bells) * row(*i) );
 
+      if ( g.bells() != bells || !principle && g[0] != 0 ) {
+	ap.error( make_string() << "The part end '" << *i << "' must fix the "
+		  "treble and not be on more than " << bells << " bells" );
+	return false;
+      }
+      if ( in_course && g.sign() == -1 ) {
+	ap.error( make_string() << "Out-of-course part end '" << *i 
+		  << "' specified for in-course composition" );
+	return false;
+      }
+      if ( tenors_together && !is_tt(g) ) {
+	ap.error( make_string() << "The part end '" << *i 
+		  << "' does not keep the tenors together" );
+	return false;
+      }
+
       // This is hopelessly broken.  Let's just admit it and bail out.
       if ( linkage && whole_courses && g[bells-1] != bells-1 ) {
 	ap.error( "Part end groups affecting the tenor are not supported " 
-- 
2.43.0


From 41b721b19416bc36cd0cef5911e0663fb28bf0cb Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 05:54:57 +0000
Subject: [PATCH 158/174] fix: refuse fextent -t without whole courses on seven
 bells or more instead of aborting

---
 apps/fextent/fextent.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 90a7f3c..6ce9e9c 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -451,6 +451,12 @@ bool arguments::validate( arg_parser& ap )
     return false;
   }
 
+  if ( tenors_together && ( !whole_courses || bells < 7 ) ) {
+    ap.error( "Tenors-together searches are only supported in whole courses "
+	      "on at least seven bells" );
+    return false;
+  }
+
   if ( !generate_pends( ap ) ) 
     return false;
 
-- 
2.43.0


From de0b635b1277ab5abafd502d6cba064cf5deab22 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 05:54:57 +0000
Subject: [PATCH 159/174] fix: let fextent -c search methods with false courses

---
 apps/fextent/fextent.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 6ce9e9c..aa01959 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -676,8 +676,13 @@ void state::init_mt( method const& m, group const& pgrp,
   status_out( "Generating multiplication table ..." );
 
   group postgroup;
+  // The lead heads are only needed to find the course heads again if
+  // the part ends move the tenor.
   if ( flags & whole_courses )
-    postgroup = group( m.lh() );
+    for ( group::const_iterator i( pgrp.begin() ), e( pgrp.end() );
+	  i != e; ++i )
+      if ( (*i)[bells-1] != bells-1 )
+	postgroup = group( m.lh() );
 
   if ( flags & in_course_only )
     mt.reset( new multtab( incourse_extent_iterator(nw, nh, bells),
-- 
2.43.0


From 045b479879f4d4f5f5eae10e1fdb89a89cf4b9d4 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 05:58:03 +0000
Subject: [PATCH 160/174] fix: refuse leads required in fextent that are false
 with themselves in another part

---
 apps/fextent/fextent.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index aa01959..a80835c 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -1226,13 +1226,16 @@ void state::clear()
 	}
       }
 
+  init.commit_permanently(*this);
+
   // Locate required rows and rows false against them
+  perturbation req(*this);
   for ( vector<row_t>::const_iterator i(req_rows.begin()), e(req_rows.end());
 	i != e; ++i )
-    if ( !init.add_row(*i) ) 
+    if ( !req.add_row(*i) ) 
       throw runtime_error( "Error: the required rows are mutually false" );
   
-  init.commit_permanently(*this);
+  req.commit_permanently(*this);
 }
 
 bool state::perturbation::check_delta() const
-- 
2.43.0


From 21d0cedc2b7eddab61e8a2afa71c8dda4a037fad Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 06:18:21 +0000
Subject: [PATCH 161/174] fix: write the sample rate in ringmethod's header
 correctly

---
 apps/ringmethod/ringmethod.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index d13fac2..523923b 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -248,10 +248,10 @@ row_player::row_player( tower_sounds& tower, int peal_speed, double hs_lead,
 
 static void sprintf_uint32le( char* pbuf, uint32_t val )
 {
-  pbuf[0] = (val & 0x000000FF) >> 0x0;
-  pbuf[1] = (val & 0x0000FF00) >> 0x4;
-  pbuf[2] = (val & 0x00FF0000) >> 0x8;
-  pbuf[3] = (val & 0xFF000000) >> 0xC;
+  pbuf[0] = (val & 0x000000FF) >> 0;
+  pbuf[1] = (val & 0x0000FF00) >> 8;
+  pbuf[2] = (val & 0x00FF0000) >> 16;
+  pbuf[3] = (val & 0xFF000000) >> 24;
 }
 
 void row_player::header( ostream& os )
-- 
2.43.0


From 6cfd317aa627162414178dd2bea0b4d8b8254a31 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 06:18:21 +0000
Subject: [PATCH 162/174] fix: accept a deviation in ringmethod -o

---
 apps/ringmethod/ringmethod.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index 523923b..b81671c 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -466,7 +466,7 @@ bool offset_opt::parse_meandev( string const& meandev, arg_parser const& ap,
 
   if ( comma != string::npos ) {
     try { 
-      stddev = lexical_cast<double>( meandev.substr(comma) );
+      stddev = lexical_cast<double>( meandev.substr(comma+1) );
     } catch ( bad_lexical_cast const& ) {
       ap.error( make_string() << "Invalid deviation: \"" 
                               << meandev.substr(comma) << "\"" );
-- 
2.43.0


From 9238a48c83d0f2e94a4ee7f0d7e10b6eb5e86533 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 06:18:21 +0000
Subject: [PATCH 163/174] fix: give the tenor its frequency in ringmethod on
 multiples of seven bells

---
 apps/ringmethod/ringmethod.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index b81671c..1a94d16 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -143,7 +143,7 @@ private:
 tower_sounds::tower_sounds( double tenor_freq, int num, int sample_rate )
   : srate(sample_rate)
 {
-  tenor_freq *= ipower( 2, num / 7 );
+  tenor_freq *= ipower( 2, num > 0 ? (num-1) / 7 : 0 );
   bellv.reserve(num);
   int n = num % 7;
   double a = 1, ax = 1.02;
-- 
2.43.0


From 6327b7e16eb291fa0d285616f7118034436b0332 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 06:18:21 +0000
Subject: [PATCH 164/174] fix: ring nothing in ringmethod if there are no rows

---
 apps/ringmethod/ringmethod.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index 1a94d16..a42589d 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -295,7 +295,7 @@ void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
                           ostream& os )
 {
   row r = rr->next();  
-  if (r.bells() < tower.bells()) r *= row(tower.bells());
+  if (r.bells() && r.bells() < tower.bells()) r *= row(tower.bells());
 
   size_t bell_idx = 0, row_idx = 0;
 
@@ -305,7 +305,7 @@ void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
   //bool have_queued_bell = false;
   //bell queued_bell;
   //int queued_timestep;
-  int eof_timestep;
+  int eof_timestep = 0;
 
   size_t t = 0;
 
-- 
2.43.0


From 174ae18c289979eb112f6ada7dfd0b07d04a302d Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 06:18:57 +0000
Subject: [PATCH 165/174] fix: do not wait for ever in ringmethod for a bell
 that strikes before the last row ends

---
 apps/ringmethod/ringmethod.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index a42589d..b31bf5e 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -313,7 +313,9 @@ void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
   int16_t data_idx = 0, data[datasz];
   while (r.bells() || t < eof_timestep)
   {
-    if (queued_bells.empty() && r.bells()) {
+    // Read each row as soon as the previous one has begun, as its bells may
+    // strike before the last of the previous row
+    if (queued_bells.size() < tower.bells() && r.bells()) {
       int ts;  // timestamp of last bell in row
       for (int i = 0; i<r.bells(); ++i) {
         offset const& o = striking[ r[i] ];
@@ -322,7 +324,7 @@ void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
             row_idx % 2 ? o.stddev_b  : o.stddev_h );
         double posn = i + row_idx * tower.bells() + row_idx/2 * hs_lead + off;
         ts = (int)( posn * bell_sep * tower.sample_rate() );
-        if (ts<0) ts = 0;
+        if (ts < int(t)) ts = t;
         if (ts<queued_timestamp) queued_timestamp = ts;
         queued_bells.push_back( make_pair( r[i], ts ) );
       }
-- 
2.43.0


From 93186e0250b9e532ba1aa503abfdf598dad250b9 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 06:18:57 +0000
Subject: [PATCH 166/174] fix: refuse rows on more bells than there are in
 ringmethod instead of aborting

---
 apps/ringmethod/ringmethod.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index b31bf5e..f996d95 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -219,6 +219,7 @@ private:
   };
 
   void do_ring( shared_pointer<row_reader_base> const& r, ostream& os );
+  row next_row( shared_pointer<row_reader_base> const& r ) const;
 
 public:
   void header( ostream& os );
@@ -291,11 +292,20 @@ void row_player::header( ostream& os )
   os.write( buf, 44 );
 }
 
+row row_player::next_row( shared_pointer<row_reader_base> const& rr ) const
+{
+  row r = rr->next();
+  if (r.bells() > tower.bells())
+    throw runtime_error
+      ( make_string() << "There are not enough bells to ring " << r );
+  if (r.bells() && r.bells() < tower.bells()) r *= row(tower.bells());
+  return r;
+}
+
 void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
                           ostream& os )
 {
-  row r = rr->next();  
-  if (r.bells() && r.bells() < tower.bells()) r *= row(tower.bells());
+  row r = next_row( rr );
 
   size_t bell_idx = 0, row_idx = 0;
 
@@ -330,11 +340,9 @@ void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
       }
 
       row_idx++; // get next row
-      r = rr->next();  
+      r = next_row( rr );
       if (r.bells() == 0) 
         eof_timestep = ts + 5 * tower.sample_rate();
-      else if (r.bells() < tower.bells()) 
-        r *= row(tower.bells());
     }
  
     if (queued_bells.size() && queued_timestamp == t) {
@@ -627,6 +635,11 @@ int main(int argc, char* argv[])
   tower_sounds tower( args.tenor_nominal, args.bells, args.sample_rate ); 
   row_player player( tower, args.peal_speed, args.hs_lead, args.striking );
   player.header( cout );
-  player.ring( istream_iterator<row>(cin), istream_iterator<row>(), cout );
+  try {
+    player.ring( istream_iterator<row>(cin), istream_iterator<row>(), cout );
+  } catch ( exception const& e ) {
+    cerr << "ringmethod: " << e.what() << "\n";
+    return 1;
+  }
 }
 
-- 
2.43.0


From 9608172c6bb71aa67c8fb289bc76ed7857767329 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 06:18:57 +0000
Subject: [PATCH 167/174] fix: refuse unusable arguments in ringmethod instead
 of aborting

---
 apps/ringmethod/ringmethod.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index f996d95..295ce0c 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -590,6 +590,23 @@ void arguments::bind( arg_parser& p )
 
 bool arguments::validate( arg_parser& ap )
 {
+  if ( bells <= 0 || bells > int(bell::MAX_BELLS) ) {
+    ap.error( make_string() << "The number of bells must be between 1 and "
+              << bell::MAX_BELLS );
+    return false;
+  }
+
+  if ( sample_rate <= 0 || peal_speed * 60 / 2500.0 / (bells*2+1) 
+                             * sample_rate <= 2.0 ) {
+    ap.error( "The peal speed is too fast for the sample rate" );
+    return false;
+  }
+
+  if ( default_deviation < 0 ) {
+    ap.error( "The deviation must not be negative" );
+    return false;
+  }
+
   for ( bell b=0; b<bells; ++b )
     if ( striking.find(b) == striking.end() ) 
       striking[b] = offset();
-- 
2.43.0


From 1685c3ab81a9cae21ff0a3f19ce4ef198be78380 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 07:00:22 +0000
Subject: [PATCH 168/174] fix: let musgrep match on as many bells as there are
 symbols

---
 apps/musgrep/musgrep.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/musgrep/musgrep.cpp b/apps/musgrep/musgrep.cpp
index 1ceabf3..b2411cf 100644
--- a/apps/musgrep/musgrep.cpp
+++ b/apps/musgrep/musgrep.cpp
@@ -136,10 +136,10 @@ bool arguments::validate( arg_parser& ap )
       return false;
     }
 
-  if ( bells >= int(bell::MAX_BELLS) )
+  if ( bells > int(bell::MAX_BELLS) )
     {
       ap.error( make_string() << "The number of bells must be less than "
-                << bell::MAX_BELLS );
+                << bell::MAX_BELLS+1 );
       return false;
     }
 
-- 
2.43.0


From 6f009fa2e5e86d5b6f1b166ce0fd7b895de936c4 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 07:01:32 +0000
Subject: [PATCH 169/174] fix: recognise the treble in either case in row
 expressions

---
 apps/utils/row_calc.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index e5496b5..7ffa2be 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -725,9 +725,14 @@ row rc_parser::make_row( string const& s )
   } catch ( change::invalid const& ) {}
  
   // Allow treble to be omitted
-  if ((f & row_calc::allow_implicit_treble) 
-      && str.find( bell(0).to_char() ) == string::npos)
-    str = bell(0).to_char() + str;
+  if (f & row_calc::allow_implicit_treble) {
+    bool has_treble = false;
+    for ( string::const_iterator i=str.begin(), e=str.end(); i!=e; ++i )
+      if ( bell::is_symbol(*i) && bell::read_char(*i) == 0 )
+        has_treble = true;
+    if ( !has_treble ) 
+      str = bell(0).to_char() + str;
+  }
 
   row r( str );
   if (!(f & row_calc::allow_row_promotion) && r.bells() != bells)  
-- 
2.43.0


From 5258caaf40afbec501247458408d8c818d2bc4b1 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 07:01:43 +0000
Subject: [PATCH 170/174] fix: use the symbols in force in touchsearch's
 default call

---
 apps/touchsearch/prog_args.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/touchsearch/prog_args.cpp b/apps/touchsearch/prog_args.cpp
index b78b5fb..fa99940 100644
--- a/apps/touchsearch/prog_args.cpp
+++ b/apps/touchsearch/prog_args.cpp
@@ -199,7 +199,7 @@ bool arguments::generate_calls( arg_parser& ap )
 {
   // This is only a warning -- so don't return false
   if ( call_strs.empty() ) {
-    call_strs.push_back( "b=14" );
+    call_strs.push_back( make_string() << "b=" << bell(0) << bell(3) );
     ap.error( "No calls specified -- assuming fourths place bobs");
   }
 
-- 
2.43.0


From bdfdf32e6faccd3dbf5630831410bfcff44ae633 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 07:02:56 +0000
Subject: [PATCH 171/174] fix: find lead head codes and falseness groups
 whatever the symbols in use

---
 ringing/falseness.cpp | 25 ++++++++++++++++++-------
 ringing/method.cpp    |  6 +++---
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/ringing/falseness.cpp b/ringing/falseness.cpp
index 8ac7518..0a45fb7 100644
--- a/ringing/falseness.cpp
+++ b/ringing/falseness.cpp
@@ -238,6 +238,17 @@ static const struct init_data_t {
 };
 
 
+// The rows in the table use the default symbols, even if others are in use
+static row read_row( char const* str )
+{
+  vector<bell> r;
+  for ( ; *str; ++str ) {
+    assert( *str >= '1' && *str <= '8' );
+    r.push_back( *str - '1' );
+  }
+  return row(r);
+}
+
 // An optional cache for efficiency
 static shared_pointer< map<row, string> > optimised_table;
 
@@ -253,11 +264,11 @@ static shared_pointer< map<row, string> > make_table(int bells)
   for ( const init_data_t* p=init_data; p->r; ++p )
     {
       if ( bells == 8 )
-	(*table)[ rounds * p->r ] = string( p->s, 1 );
+	(*table)[ rounds * read_row(p->r) ] = string( p->s, 1 );
       else if ( bells == 10 && strcmp( p->s, "D1" ) == 0 )
-	(*table)[ rounds * p->r ] = "B1";
+	(*table)[ rounds * read_row(p->r) ] = "B1";
       else
-	(*table)[ rounds * p->r ] = p->s;
+	(*table)[ rounds * read_row(p->r) ] = p->s;
     }
 
   return table;
@@ -275,11 +286,11 @@ string lookup_one_symbol( map<row, string> const& table, int b, row r )
   // This is a hack to get X, Y and Z falseness to work on 8 bells
   if (b == 8) {
     row rounds(b);
-    if ( r == rounds * "17623548" )
+    if ( r == rounds * read_row("17623548") )
       return string( "X" );
-    else if ( r == rounds * "17645328" )
+    else if ( r == rounds * read_row("17645328") )
       return string( "Y" );
-    else if ( r == rounds * "17632458" )
+    else if ( r == rounds * read_row("17632458") )
       return string( "Z" );
   }
 
@@ -339,7 +350,7 @@ string false_courses::lookup_symbol( row const& r )
   const size_t b = r.bells();
 
   row const pblh( row::pblh(b) );
-  row lhc; lhc *= change(b, "12"); // either 12 or 1N are fine
+  row lhc; lhc *= change(b, "{1}{2}"); // either 12 or 1N are fine
 
   group g( pblh, lhc );
 
diff --git a/ringing/method.cpp b/ringing/method.cpp
index 2ffdfe2..a99a930 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -481,14 +481,14 @@ char *method::lhcode(void) const
   if(lhr[1] == 1) {		// Two hunt bells
     if((*this)[0] == change(bells(), "X"))
       lhplace = 1;
-    else if((*this)[0] == change(bells(), "3"))
+    else if((*this)[0] == change(bells(), "{3}"))
       lhplace = 2;
     o = bells()-2;		// Order of the lead head
     n = o - n;
   } else {			// One hunt bell
-    if((*this)[length()-1] == change(bells(), "1"))
+    if((*this)[length()-1] == change(bells(), "{1}"))
       lhplace = 1;
-    else if((*this)[length()-1] == change(bells(), "12"))
+    else if((*this)[length()-1] == change(bells(), "{1}{2}"))
       lhplace = 2;
     o = bells()-1;
   }
-- 
2.43.0


From 35a4a9ae19d86a71d8d3ea7ab42da9129b95c477 Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 07:02:56 +0000
Subject: [PATCH 172/174] fix: use the symbols in force in methsearch's limited
 lead-ends and old lead head codes

---
 apps/methsearch/methodutils.cpp | 87 ++++++++++++++++++---------------
 apps/methsearch/search.cpp      |  8 +--
 2 files changed, 52 insertions(+), 43 deletions(-)

diff --git a/apps/methsearch/methodutils.cpp b/apps/methsearch/methodutils.cpp
index 16cb6bc..59f8690 100644
--- a/apps/methsearch/methodutils.cpp
+++ b/apps/methsearch/methodutils.cpp
@@ -308,53 +308,62 @@ bool compare_changes( change const& a, change const& b )
 
 RINGING_START_ANON_NAMESPACE
 
+// Tests for a row written in the default symbols, even if others are in use
+static bool is_row( row const& r, char const* str )
+{
+  for ( int i=0; i<r.bells(); ++i )
+    if ( r[i] != str[i] - '1' )
+      return false;
+  return true;
+}
+
 static char const* old_lhcode_6( bool unicode, method const& m )
 {
   row const lh( m.lh() );
-  change const c12( m.bells(), "12" );
+  change const c12( m.bells(), "{1}{2}" );
 
   bool const seconds( m.back() == c12 );
 
   // Only handle seconds and sixth place methods
-  if ( !seconds && m.back() != change( m.bells(), "1" ) ) {
-    if ( m.back() != change(m.bells(), "14") ) return "?";
+  if ( !seconds && m.back() != change( m.bells(), "{1}" ) ) {
+    if ( m.back() != change(m.bells(), "{1}{4}") ) return "?";
 
-    if ( lh == "145362" ) return "X";
-    if ( lh == "162534" ) return "Y";
+    if ( is_row(lh, "145362") ) return "X";
+    if ( is_row(lh, "162534") ) return "Y";
 
-    if ( unicode && lh == "136524" ) return "\xCE\xBC"; // mu
-    if ( unicode && lh == "152643" ) return "\xCE\xB8"; // theta
-    if ( unicode && lh == "164235" ) return "\xCE\xB4"; // delta
-    if ( unicode && lh == "146325" ) return "\xCE\xA8"; // Psi
-    if ( unicode && lh == "154263" ) return "\xCE\xA3"; // Sigma
-    if ( unicode && lh == "135642" ) return "\xCE\xBB"; // lambda
+    if ( unicode && is_row(lh, "136524") ) return "\xCE\xBC"; // mu
+    if ( unicode && is_row(lh, "152643") ) return "\xCE\xB8"; // theta
+    if ( unicode && is_row(lh, "164235") ) return "\xCE\xB4"; // delta
+    if ( unicode && is_row(lh, "146325") ) return "\xCE\xA8"; // Psi
+    if ( unicode && is_row(lh, "154263") ) return "\xCE\xA3"; // Sigma
+    if ( unicode && is_row(lh, "135642") ) return "\xCE\xBB"; // lambda
 
     return "?";
   }
 
   switch (lh[1]) {
     case 2:
-      if ( lh == "135264" ) return seconds ? "G" : "L";
-      if ( lh == "136245" ) return seconds ? "Q" : "?";
-      if ( lh == "134625" ) return seconds ? "?" : "W";
+      if ( is_row(lh, "135264") ) return seconds ? "G" : "L";
+      if ( is_row(lh, "136245") ) return seconds ? "Q" : "?";
+      if ( is_row(lh, "134625") ) return seconds ? "?" : "W";
       break;
       
     case 3:
-      if ( lh == "142635" ) return seconds ? "K" : "O";
-      if ( lh == "142563" ) return seconds ? "P" : "?";
-      if ( lh == "146532" ) return seconds ? "?" : "U";
+      if ( is_row(lh, "142635") ) return seconds ? "K" : "O";
+      if ( is_row(lh, "142563") ) return seconds ? "P" : "?";
+      if ( is_row(lh, "146532") ) return seconds ? "?" : "U";
       break;
       
     case 4:
-      if ( lh == "156342" ) return seconds ? "H" : "M";
-      if ( lh == "154632" ) return seconds ? "S" : "?";
-      if ( lh == "152364" ) return seconds ? "?" : "T";
+      if ( is_row(lh, "156342") ) return seconds ? "H" : "M";
+      if ( is_row(lh, "154632") ) return seconds ? "S" : "?";
+      if ( is_row(lh, "152364") ) return seconds ? "?" : "T";
       break;
       
     case 5:
-      if ( lh == "164523" ) return seconds ? "J" : "N";
-      if ( lh == "165324" ) return seconds ? "R" : "?";
-      if ( lh == "165243" ) return seconds ? "?" : "V";
+      if ( is_row(lh, "164523") ) return seconds ? "J" : "N";
+      if ( is_row(lh, "165324") ) return seconds ? "R" : "?";
+      if ( is_row(lh, "165243") ) return seconds ? "?" : "V";
       break;
     }
 
@@ -364,8 +373,8 @@ static char const* old_lhcode_6( bool unicode, method const& m )
 static char const* old_lhcode_5( method const& m )
 {
   row const lh( m.lh() );
-  change const c1(m.bells(), "1"),   c2(m.bells(), "12"), 
-               c3(m.bells(), "123"), c4(m.bells(), "14");
+  change const c1(m.bells(), "{1}"),   c2(m.bells(), "{1}{2}"), 
+               c3(m.bells(), "{1}{2}{3}"), c4(m.bells(), "14");
 
   bool const b1(m.back() == c1), b2(m.back() == c2), 
              b3(m.back() == c3), b4(m.back() == c4);
@@ -375,29 +384,29 @@ static char const* old_lhcode_5( method const& m )
 
   switch (lh[1]) {
     case 1:
-      if ( lh == "12534" ) return b2 ? "G" : b3 ? "T" : "?";
-      if ( lh == "12453" ) return b2 ? "K" : b3 ? "S" : "?";
+      if ( is_row(lh, "12534") ) return b2 ? "G" : b3 ? "T" : "?";
+      if ( is_row(lh, "12453") ) return b2 ? "K" : b3 ? "S" : "?";
       break;
  
     case 2:
-      if ( lh == "13524" ) return b2 ? "A" : b1 ? "C" : "?";
-      if ( lh == "13542" ) return b4 ? "Z" : "?";
-      if ( lh == "13425" ) return b2 ? "H" : b4 ? "X" : "?";
-      if ( lh == "13452" ) return b1 ? "F" : "?";
+      if ( is_row(lh, "13524") ) return b2 ? "A" : b1 ? "C" : "?";
+      if ( is_row(lh, "13542") ) return b4 ? "Z" : "?";
+      if ( is_row(lh, "13425") ) return b2 ? "H" : b4 ? "X" : "?";
+      if ( is_row(lh, "13452") ) return b1 ? "F" : "?";
       break;
  
     case 3:
-      if ( lh == "14253" ) return b2 ? "B" : b1 ? "D" : "?";
-      if ( lh == "14235" ) return b2 ? "J" : b4 ? "W" : "?";
-      if ( lh == "14352" ) return b3 ? "U" : "?";
-      if ( lh == "14532" ) return b3 ? "R" : b4 ? "N" : "?";
+      if ( is_row(lh, "14253") ) return b2 ? "B" : b1 ? "D" : "?";
+      if ( is_row(lh, "14235") ) return b2 ? "J" : b4 ? "W" : "?";
+      if ( is_row(lh, "14352") ) return b3 ? "U" : "?";
+      if ( is_row(lh, "14532") ) return b3 ? "R" : b4 ? "N" : "?";
       break;
 
     case 4:
-      if ( lh == "15234" ) return b1 ? "E" : "?";
-      if ( lh == "15243" ) return b4 ? "Y" : "?";
-      if ( lh == "15423" ) return b3 ? "Q" : b4 ? "M" : "?";
-      if ( lh == "15324" ) return b3 ? "V" : "?";
+      if ( is_row(lh, "15234") ) return b1 ? "E" : "?";
+      if ( is_row(lh, "15243") ) return b4 ? "Y" : "?";
+      if ( is_row(lh, "15423") ) return b3 ? "Q" : b4 ? "M" : "?";
+      if ( is_row(lh, "15324") ) return b3 ? "V" : "?";
       break;
     }
 
diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index b714f2c..91c3ec4 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -620,8 +620,8 @@ bool searcher::is_acceptable_method()
 
   // Calls back to this function, so pretty expensive
   if ( args.prefer_limited_le && !is_limited_le( m.back() ) &&
-       ( try_with_limited_le( change( bells, "1"  ) ) ||
-         try_with_limited_le( change( bells, "12" ) ) ) )
+       ( try_with_limited_le( change( bells, "{1}" ) ) ||
+         try_with_limited_le( change( bells, "{1}{2}" ) ) ) )
     return false;
 
   // Leave this one last as --requires does a fork and so is very expensive
@@ -841,10 +841,10 @@ bool searcher::try_halflead_change( const change &ch )
 
 bool searcher::is_limited_le( const change& ch )
 {
-  string pn("1");
+  string pn("{1}");
   pn += bell( args.hunt_bells ).to_char();
   
-  if ( ch == change( bells, "1" ) || ch == change( bells, pn ) )
+  if ( ch == change( bells, "{1}" ) || ch == change( bells, pn ) )
     return true;
   else
     return false;
-- 
2.43.0


From 8dab2910890a7a14ec03f5b05e8a8120d17aad6c Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 07:02:56 +0000
Subject: [PATCH 173/174] fix: use the symbols in force in fextent's default
 call

---
 apps/fextent/fextent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index a80835c..7b0d103 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -251,7 +251,7 @@ bool arguments::generate_calls( arg_parser& ap )
 {
   // These are only warnings -- so don't return false
   if ( call_strs.empty() && linkage ) {
-    call_strs.push_back( "14" );
+    call_strs.push_back( "{1}{4}" );
     ap.error( "No calls specified -- assuming fourths place bobs");
   }
   else if ( !call_strs.empty() && !linkage ) {
-- 
2.43.0


From c2ddc86f6068d7970795e965d15bd5aa216abd6d Mon Sep 17 00:00:00 2001
From: vf <vf@x>
Date: Fri, 20 Nov 2026 07:05:32 +0000
Subject: [PATCH 174/174] fix: use the symbols in force in methsearch's old
 lead head codes on five bells

---
 apps/methsearch/methodutils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/methodutils.cpp b/apps/methsearch/methodutils.cpp
index 59f8690..e3d48d4 100644
--- a/apps/methsearch/methodutils.cpp
+++ b/apps/methsearch/methodutils.cpp
@@ -374,7 +374,7 @@ static char const* old_lhcode_5( method const& m )
 {
   row const lh( m.lh() );
   change const c1(m.bells(), "{1}"),   c2(m.bells(), "{1}{2}"), 
-               c3(m.bells(), "{1}{2}{3}"), c4(m.bells(), "14");
+               c3(m.bells(), "{1}{2}{3}"), c4(m.bells(), "{1}{4}");
 
   bool const b1(m.back() == c1), b2(m.back() == c2), 
              b3(m.back() == c3), b4(m.back() == c4);
-- 
2.43.0

