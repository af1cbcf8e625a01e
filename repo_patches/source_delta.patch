From 937e58479de736190688af164098bbeec89c1f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 01/63] fix: bound reads from a memory buffer without wrapping
 the size sum

m_pos+s wraps for a size read from hostile data, and the copy then ran
outside the buffer instead of throwing pack_error.
---
 pack_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index 40b735a..6219c51 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -203,7 +203,7 @@ namespace classdesc
     virtual void popoff(basic_type& x)
     {
       if (mode==buf)
-        if (m_pos+x.size>m_size)
+        if (m_pos>m_size || x.size>m_size-m_pos)
           throw pack_error("unexpected end of data");
         else
           memcpy(x.val,m_data+m_pos,x.size);
@@ -270,7 +270,7 @@ namespace classdesc
     {
       if (mode==buf)
         {
-          if (s+m_pos>m_size)
+          if (m_pos>m_size || s>m_size-m_pos)
             throw pack_error("premature end of buffered data");
           memcpy(x,m_data+m_pos,s);
         }
-- 
2.43.0


From 141bb535750f242bb7bb6fbbe5db6f01a55e4603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 02/63] fix: reject impossible string lengths when unpacking,
 and unpack wide strings

size+1 and sizeof(cT)*size wrapped for lengths read from corrupt data, so
the read ran past the temporary buffer. The char* argument did not compile
for character types other than char.
---
 pack_stl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pack_stl.h b/pack_stl.h
index 09fca3d..8d44597 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -261,8 +261,10 @@ namespace classdesc_access
     void operator()(classdesc::pack_t& targ, const classdesc::string& desc, U& arg) 
     {
       classdesc::uint64 size=0; targ>>size;
+      if (size>=size_t(-1)/sizeof(cT))
+        throw classdesc::pack_error("invalid string length");
       std::vector<cT> buf(size+1); //ensure buf[0] exists
-      targ.unpackraw(buf.data(),sizeof(cT)*size);
+      targ.unpackraw(reinterpret_cast<char*>(buf.data()),sizeof(cT)*size);
       asg(arg, buf);
     }
   };
-- 
2.43.0


From a19d615992c4100bae0bc64ce7cfc6c44a46c23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 03/63] fix: packraw reports allocation failure and counts
 bytes written to a file

as append() already does.
---
 pack_base.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index 6219c51..0cfdbfb 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -253,12 +253,14 @@ namespace classdesc
       if (mode==buf)
         {
           realloc(m_size+s); 
-          memcpy(m_data+m_size,x,s); m_size+=s;
+          if (!m_data && m_size+s)
+            throw std::bad_alloc();
+          if (s) memcpy(m_data+m_size,x,s);
         }
       else
         if (s && fwrite(x,s,1,f)!=1)
           throw pack_error("failed to write data to stream");
-          
+      m_size+=s;
     }
     
 #if defined(__GNUC__) && !defined(__ICC)
-- 
2.43.0


From 7f13e23c4ac52e39aa9411e08b1169e60475d93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 04/63] fix: exchange every member when swapping or moving
 serialisation buffers

xdr_pack::swap crossed its input and output streams, swap_base left
recur_max behind, and the move constructors swapped uninitialised members
into their argument.
---
 pack_base.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index 0cfdbfb..cd17d5d 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -152,6 +152,7 @@ namespace classdesc
       std::swap(m_size,other.m_size);
       std::swap(m_pos,other.m_pos);
       std::swap(ptr_flag,other.ptr_flag);
+      std::swap(recur_max,other.recur_max);
       std::swap(alloced,other.alloced);
     }
     enum mode_t {buf, readf, writef};
@@ -230,7 +231,8 @@ namespace classdesc
     virtual ~pack_t() {realloc(0); if (f) fclose(f);}
 
 #if __cplusplus >= 201103L
-    pack_t(pack_t&& x): f(nullptr), m_data(nullptr) {swap_base(x);}
+    pack_t(pack_t&& x): f(nullptr), mode(buf), m_data(nullptr), m_size(0), m_pos(0),
+                        ptr_flag(DEFAULT), recur_max(500) {swap_base(x);}
     pack_t& operator=(pack_t&& x) {swap_base(x); return *this;}
 #endif
 
@@ -337,7 +339,7 @@ namespace classdesc
     xdr_pack(const char *, const char* rw);
     ~xdr_pack();
 #if __cplusplus >= 201103L
-    xdr_pack(xdr_pack&& x): input(nullptr), output(nullptr) {swap(x);}
+    xdr_pack(xdr_pack&& x): asize(0), input(nullptr), output(nullptr) {swap(x);}
     xdr_pack& operator=(xdr_pack&& x) {swap(x); return *this;}
 #endif
 
@@ -355,7 +357,7 @@ namespace classdesc
       swap_base(other);
       std::swap(asize,xdr_other->asize);
       std::swap(input,xdr_other->input);
-      std::swap(input,xdr_other->output);
+      std::swap(output,xdr_other->output);
     }
   };
   template <> inline string typeName<xdr_pack>() {return "classdesc::xdr_pack";}
-- 
2.43.0


From 47d78ca40cdc382caa821675c1c09a0d018d11f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 05/63] fix: xdr_pack memory buffers larger than one segment
 can be read back

The decode stream covered only the first 1024 bytes and was rewound whenever
the buffer grew, raw items larger than a segment could not be encoded, and
seeking back past a segment boundary computed the wrong offset. Reading past
the encoded data returned uninitialised memory instead of throwing, and
reseti()/reseto()/seeko() did not update size() and pos().
---
 pack_base.h |  8 ++++--
 xdr_pack.cc | 73 ++++++++++++++++++++++++++++++++---------------------
 2 files changed, 50 insertions(+), 31 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index cd17d5d..b39aa1c 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -332,14 +332,17 @@ namespace classdesc
   */
   class xdr_pack: public pack_t
   {
-    size_t asize;
+    size_t asize;   ///< offset of the segment currently being encoded
+    size_t segSize; ///< size of the segment currently being encoded
     XDR *input, *output;
+    void newSegment(size_t sz);
+    void decoded();
   public:
     xdr_pack(size_t sz=BUFCHUNK);
     xdr_pack(const char *, const char* rw);
     ~xdr_pack();
 #if __cplusplus >= 201103L
-    xdr_pack(xdr_pack&& x): asize(0), input(nullptr), output(nullptr) {swap(x);}
+    xdr_pack(xdr_pack&& x): asize(0), segSize(0), input(nullptr), output(nullptr) {swap(x);}
     xdr_pack& operator=(xdr_pack&& x) {swap(x); return *this;}
 #endif
 
@@ -356,6 +359,7 @@ namespace classdesc
       if (!xdr_other) throw pack_error("cannot swap differing types");
       swap_base(other);
       std::swap(asize,xdr_other->asize);
+      std::swap(segSize,xdr_other->segSize);
       std::swap(input,xdr_other->input);
       std::swap(output,xdr_other->output);
     }
diff --git a/xdr_pack.cc b/xdr_pack.cc
index ddd87cc..d282263 100644
--- a/xdr_pack.cc
+++ b/xdr_pack.cc
@@ -147,14 +147,15 @@ namespace classdesc
   xdr_filter XDR_filter(const long double& x)        
   {return NULL;}    
 
-  xdr_pack::xdr_pack(size_t sz): pack_t(sz), asize(0)
+  xdr_pack::xdr_pack(size_t sz): pack_t(sz), asize(0), segSize(sz)
   {
+    m_size=0; // sz is the capacity, nothing has been encoded yet
     input=new XDR; output=new XDR;
     xdrmem_create(input,(const caddr_t)data(),sz,XDR_ENCODE);
     xdrmem_create(output,(const caddr_t)data(),sz,XDR_DECODE);    
   }
 
-  xdr_pack::xdr_pack(const char *fname, const char *rw):  pack_t(fname,rw), asize(0)
+  xdr_pack::xdr_pack(const char *fname, const char *rw):  pack_t(fname,rw), asize(0), segSize(0)
   {
     if (mode==writef)
       {
@@ -184,17 +185,32 @@ namespace classdesc
       }
   }
 
+  /// start a new segment with room for at least sz bytes, keeping the read position
+  void xdr_pack::newSegment(size_t sz)
+    {
+      u_int readPos=xdr_getpos(output);
+      asize += xdr_getpos(input);
+      segSize = sz>size_t(BUFCHUNK)? sz: size_t(BUFCHUNK);
+      realloc(asize+segSize);
+      if (m_data==NULL) throw pack_error("Out of memory encoding XDR stream");
+      xdr_destroy(input); xdr_destroy(output);
+      xdrmem_create(input,(const caddr_t)data()+asize,segSize,XDR_ENCODE);
+      xdrmem_create(output,(const caddr_t)data(),asize+segSize,XDR_DECODE);
+      xdr_setpos(output,readPos);
+    }
+
+  /// update read position, and check that only encoded data has been read
+  void xdr_pack::decoded()
+    {
+      m_pos=xdr_getpos(output);
+      if (mode==buf && m_pos>m_size)
+        throw pack_error("unexpected end of XDR data");
+    }
+
   void  xdr_pack::append(const basic_type& x) 
     {
-      if (mode==buf && BUFCHUNK-xdr_getpos(input)<8)
-	{
-	  asize += xdr_getpos(input);
-	  realloc(asize+BUFCHUNK);
-	  if (m_data==NULL) throw pack_error("Out of memory encoding XDR stream");
-	  xdr_destroy(input); xdr_destroy(output);
-	  xdrmem_create(input,(const caddr_t)data()+asize,BUFCHUNK,XDR_ENCODE);
-	  xdrmem_create(output,(const caddr_t)data(),BUFCHUNK,XDR_DECODE);
-	}
+      if (mode==buf && segSize-xdr_getpos(input)<8)
+        newSegment(8);
       if(!x.filter || !x.filter(input,x.val)) 
 	throw pack_error("Error encoding XDR stream");
       m_size=asize+xdr_getpos(input);
@@ -204,23 +220,26 @@ namespace classdesc
   { 
     if (!x.filter || !x.filter(output,x.val)) 
       throw pack_error("Error encoding XDR stream");
-    m_pos=xdr_getpos(output);
+    decoded();
   }
 
   xdr_pack& xdr_pack::reseti() { 
-    if (asize==0) 
-      xdr_setpos(input,0);
-    else
+    if (mode==buf)
       {
-	m_size=0; asize=0; xdr_destroy(input); 
-	xdrmem_create(input,(const caddr_t)data(),BUFCHUNK,XDR_ENCODE);
+        segSize+=asize; asize=0; // reuse the whole allocation
+        xdr_destroy(input); 
+        xdrmem_create(input,(const caddr_t)data(),segSize,XDR_ENCODE);
       }
+    else
+      xdr_setpos(input,0);
+    m_size=0;
     return *this;
   }
 
   xdr_pack& xdr_pack::reseto() 
   { 
     xdr_setpos(output,0); 
+    m_pos=0;
     return *this; 
   }
 
@@ -233,9 +252,10 @@ namespace classdesc
       {
 	seekpos+=asize;  /* work in absolute stream units, not relative to 
 			    current segment */
-	asize=seekpos/BUFCHUNK; seekpos%=BUFCHUNK;
+        if (seekpos<0) throw pack_error("seek before start of XDR data");
+        segSize+=asize; asize=0;
 	xdr_destroy(input);
-	xdrmem_create(input,(const caddr_t)data()+asize,BUFCHUNK,XDR_ENCODE);
+	xdrmem_create(input,(const caddr_t)data(),segSize,XDR_ENCODE);
       }
     xdr_setpos(input,seekpos);
     m_size=asize+seekpos;
@@ -245,20 +265,15 @@ namespace classdesc
   xdr_pack& xdr_pack::seeko(long offs) 
   {
     xdr_setpos(output,xdr_getpos(output)+offs);
+    m_pos=xdr_getpos(output);
     return *this;
   }
 
   void xdr_pack::packraw(const char *x, size_t sz) 
   {
-    if (mode==buf && BUFCHUNK-xdr_getpos(input)<sz)
-      {
-	asize += xdr_getpos(input);
-	realloc(asize+BUFCHUNK);
-	if (data()==NULL) throw pack_error("Error encoding XDR stream");
-	xdr_destroy(input); xdr_destroy(output);
-	xdrmem_create(input,(const caddr_t)data()+asize,BUFCHUNK,XDR_ENCODE);
-	xdrmem_create(output,(const caddr_t)data(),BUFCHUNK,XDR_DECODE);
-      }
+    // opaque data is padded to a multiple of 4 bytes
+    if (mode==buf && segSize-xdr_getpos(input)<sz+3)
+      newSegment(sz+3);
     if (!xdr_opaque(input,const_cast<char*>(x),sz)) 
       throw pack_error("Error encoding XDR stream");
     m_size=asize+xdr_getpos(input);
@@ -268,7 +283,7 @@ namespace classdesc
   {
     if (!xdr_opaque(output,x,sz)) 
       throw pack_error("Error encoding XDR stream");
-    m_pos=xdr_getpos(output);
+    decoded();
   }
 
 }
-- 
2.43.0


From dbb1d0e8b4f70266d34d69da433ec755ec2c8530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 06/63] fix: XDR encoding of a long that doesn't fit in 32 bits
 is an error

instead of silently losing the upper bits on platforms with 64 bit longs.
The encoding of values that do fit is unchanged.
---
 xdr_pack.cc | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/xdr_pack.cc b/xdr_pack.cc
index d282263..3fb031f 100644
--- a/xdr_pack.cc
+++ b/xdr_pack.cc
@@ -109,13 +109,36 @@ namespace classdesc
   xdr_filter XDR_filter(const unsigned short int& x) 
   {return (xdr_filter) xdr_u_short;}
 
+  // A long is 32 bits on the wire, whatever its size in memory. Values
+  // that don't fit are an error, rather than being silently truncated.
+  extern "C"
+  {
+    static bool_t xdr_checked_long(::XDR* xdrs, long* lp)
+    {
+      int v=xdrs->x_op==XDR_ENCODE? int(*lp): 0;
+      if (xdrs->x_op==XDR_ENCODE && v!=*lp) return FALSE;
+      if (!xdr_int(xdrs,&v)) return FALSE;
+      if (xdrs->x_op==XDR_DECODE) *lp=v;
+      return TRUE;
+    }
+
+    static bool_t xdr_checked_u_long(::XDR* xdrs, unsigned long* lp)
+    {
+      unsigned v=xdrs->x_op==XDR_ENCODE? unsigned(*lp): 0;
+      if (xdrs->x_op==XDR_ENCODE && v!=*lp) return FALSE;
+      if (!xdr_u_int(xdrs,&v)) return FALSE;
+      if (xdrs->x_op==XDR_DECODE) *lp=v;
+      return TRUE;
+    }
+  }
+
   template <>
   xdr_filter XDR_filter(const long int& x)           
-  {return (xdr_filter) xdr_long;}
+  {return (xdr_filter) xdr_checked_long;}
 
   template <>
   xdr_filter XDR_filter(const unsigned long int& x)  
-  {return (xdr_filter) xdr_u_long;}
+  {return (xdr_filter) xdr_checked_u_long;}
 
     /* long long is an extension to ANSI C++ that describes a 64 bit
        integer on all our supported compilers. XDR's terminolgy for
-- 
2.43.0


From 02a76dd51aa808a7afb5ff5b7fb51e10f2b815ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 07/63] fix: pack char arrays of const objects as raw data, as
 unpack expects

operator<< takes its argument by const reference, so char array members
selected the generic element by element overload, which under XDR does not
match the opaque data read by unpack. Likewise for skipping a const array.
---
 pack_base.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pack_base.h b/pack_base.h
index b39aa1c..af9dbe2 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -695,6 +695,17 @@ namespace classdesc
     targ.packraw(&arg,ncopies);
   }
 
+  inline void pack(pack_t& targ, const string&, is_array, 
+                   const char &arg,int dims,size_t ncopies,...)
+  {
+    int i;
+    va_list ap;
+    va_start(ap,ncopies);
+    for (i=1; i<dims; i++) ncopies*=va_arg(ap,int);
+    va_end(ap);
+    targ.packraw(&arg,ncopies);
+  }
+
   inline void unpack(unpack_t& targ, const string&, is_array, 
                      char &arg,int dims,size_t ncopies,...)
   {
@@ -706,6 +717,18 @@ namespace classdesc
     targ.unpackraw(&arg,ncopies);
   }
 
+  inline void unpack(unpack_t& targ, const string&, is_array, 
+                     const char&,int dims,size_t ncopies,...)
+  { /* const vars cannot be unpacked */
+    int i;
+    va_list ap;
+    va_start(ap,ncopies);
+    for (i=1; i<dims; i++) ncopies*=va_arg(ap,int);
+    va_end(ap);
+    std::vector<char> dum(ncopies+1); // ensure dum[0] exists
+    targ.unpackraw(&dum[0],ncopies);
+  }
+
   /*
     Method pointer serialisation
   */
-- 
2.43.0


From 95ed60d2daa4db2f5da8ad3e581af6f156405fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 08/63] fix: unpacking a null pointer resets the target,
 whatever it held before

---
 object.h     | 2 ++
 pack_graph.h | 2 ++
 poly.h       | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/object.h b/object.h
index 53ef9aa..5b253bf 100644
--- a/object.h
+++ b/object.h
@@ -131,6 +131,8 @@ unpack(classdesc::unpack_t& b, const classdesc::string& d, classdesc::shared_ptr
 #endif
       a->unpack(b);
     }
+  else
+    a.reset();
 }
 
 template <class T> typename
diff --git a/pack_graph.h b/pack_graph.h
index 0e07f8a..0561251 100644
--- a/pack_graph.h
+++ b/pack_graph.h
@@ -53,6 +53,8 @@ namespace classdesc
         arg=static_cast<T*>(targ.alloced.back().data());
         unpack(targ,desc,*arg);
       }
+    else
+      arg=NULL;
   }
 
   /*
diff --git a/poly.h b/poly.h
index 39f34ad..01b4efc 100644
--- a/poly.h
+++ b/poly.h
@@ -185,6 +185,8 @@ namespace classdesc_access
             a=a.TypeTable[type];
           a->unpack(t);
         }
+      else
+        a=U();
     }
   };
 
-- 
2.43.0


From 6d9c32e14185db1225ac9a33396590f4bc0e95df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 09/63] fix: unpacking an expired weak_ptr into a live one no
 longer dereferences null

---
 polyAccessPack.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polyAccessPack.h b/polyAccessPack.h
index 7b860ef..33fd205 100644
--- a/polyAccessPack.h
+++ b/polyAccessPack.h
@@ -119,8 +119,9 @@ namespace classdesc_access
       // cannot deserialise to a weak reference, but need to process stream
       cd::shared_ptr<T> tmp;
       unpack_smart_ptr(x,d,tmp);
-      if (cd::shared_ptr<T> target=a.lock())
-        *target=*tmp;   // best effort, polymorphism not supported
+      if (tmp)
+        if (cd::shared_ptr<T> target=a.lock())
+          *target=*tmp;   // best effort, polymorphism not supported
     }
   };
 
-- 
2.43.0


From dbd6a70b222218fb6dbf5b251f3a8f7ce376e4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 10/63] fix: reject unregistered or mismatching type numbers
 when creating objects

---
 object.h | 5 ++++-
 poly.h   | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/object.h b/object.h
index 5b253bf..f468f06 100644
--- a/object.h
+++ b/object.h
@@ -47,7 +47,8 @@ namespace classdesc
   // it would be nice for this to be a static method of object, but it
   // appears static methods cannot be inlined
   inline object* object::create(object::TypeID t) {// factory
-    assert(t<object::TypeID(factory().size()) && t>=0);
+    if (t<0 || t>=object::TypeID(factory().size()) || !factory()[t])
+      throw exception("unregistered object type");
     return factory()[t]->clone();
   }
 
@@ -129,6 +130,8 @@ unpack(classdesc::unpack_t& b, const classdesc::string& d, classdesc::shared_ptr
 #else
       a=classdesc::dynamic_pointer_cast<T>(tmp);
 #endif
+      if (!a)
+        throw classdesc::exception("object type does not match the pointer's type");
       a->unpack(b);
     }
   else
diff --git a/poly.h b/poly.h
index 01b4efc..164ab1d 100644
--- a/poly.h
+++ b/poly.h
@@ -27,7 +27,11 @@ namespace classdesc
   {
     static std::vector<T*> data;
   public:
-    T& operator[](std::size_t i) {return *data[i];}
+    T& operator[](std::size_t i) {
+      if (i>=data.size() || !data[i])
+        throw exception("unregistered poly type");
+      return *data[i];
+    }
     void register_type(const T* t) {
       if (t->type()+1>int(data.size()))
         data.resize(t->type()+1);
-- 
2.43.0


From 79259c18661f4c14802a1f210cca9f3467d01e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 11/63] fix: assigning a poly to itself no longer reads the
 deleted object

---
 poly.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/poly.h b/poly.h
index 164ab1d..8de2032 100644
--- a/poly.h
+++ b/poly.h
@@ -58,9 +58,10 @@ namespace classdesc
     poly(): item(NULL) {}
     poly(const poly& x) {asg(x);}
     poly(const T& x) {item=dynamic_cast<T*>(x.clone()); }
-    poly& operator=(const poly& x)  {delete item; asg(x); return *this;}
+    // x may be, or may refer to part of, the current item
+    poly& operator=(const poly& x)  {T* old=item; asg(x); delete old; return *this;}
     poly& operator=(const T& x) {
-      delete item; item=dynamic_cast<T*>(x.clone()); return *this;}  
+      T* old=item; item=dynamic_cast<T*>(x.clone()); delete old; return *this;}  
     ~poly() {delete item;}
 
     //@{ 
-- 
2.43.0


From 2065e4ba8b3dc77287ff210309ac9dbdb3506db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 12/63] fix: assignment to ref and PtrStoreRef releases the old
 object exactly once, after reading the new value

---
 pack_base.h | 2 +-
 ref.h       | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index af9dbe2..3fc23e1 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -127,7 +127,7 @@ namespace classdesc
     void* data() {return d->data();}
     PtrStoreRef(PtrStoreBase *d=NULL): d(d) {}
     PtrStoreRef(const PtrStoreRef& x): d(x.d) {d && d->cnt++;}
-    PtrStoreRef& operator=(const PtrStoreRef& x) {d=x.d; d && d->cnt++; return *this;}
+    PtrStoreRef& operator=(const PtrStoreRef& x) {PtrStoreRef tmp(x); std::swap(d,tmp.d); return *this;}
     ~PtrStoreRef() {if (d && d->cnt-- == 0) delete d;}
   };
 
diff --git a/ref.h b/ref.h
index 662b1b3..8713bec 100644
--- a/ref.h
+++ b/ref.h
@@ -49,7 +49,8 @@ namespace classdesc
     ref(const ref& x) {asg(x);}
     ref(const T& x) {newitem(x);}
     ref& operator=(const ref& x)  { if (x.item!=item) {refdec(); asg(x);} return *this;}
-    ref& operator=(const T& x) {refdec(); newitem(x); return *this;}  
+    // x may refer to the current item
+    ref& operator=(const T& x) {Payload* tmp=new Payload(x); refdec(); item=tmp; return *this;}  
     ~ref() {refdec();}
     /// dereference - creates default object if null
     T* operator->() {if (!item) newitem(); return (T*)item;}
-- 
2.43.0


From e883f8234f1ed6e7e80c2c7360949d42f92d7f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 13/63] fix: assigning a ref from one inside its own payload
 reads it before releasing the payload

---
 ref.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ref.h b/ref.h
index 8713bec..4d6641a 100644
--- a/ref.h
+++ b/ref.h
@@ -48,8 +48,8 @@ namespace classdesc
     ref(): item(NULL) {}  /* unitialised refs don't consume space */
     ref(const ref& x) {asg(x);}
     ref(const T& x) {newitem(x);}
-    ref& operator=(const ref& x)  { if (x.item!=item) {refdec(); asg(x);} return *this;}
-    // x may refer to the current item
+    // x may be, or refer to, part of the current item
+    ref& operator=(const ref& x)  {ref tmp(x); swap(tmp); return *this;}
     ref& operator=(const T& x) {Payload* tmp=new Payload(x); refdec(); item=tmp; return *this;}  
     ~ref() {refdec();}
     /// dereference - creates default object if null
-- 
2.43.0


From 9cceaa44648323f9e7dfe52296a38a8352a35233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 14/63] fix: XML preserves every character value

---
 xml_pack_base.h   | 12 ++++++++++--
 xml_unpack_base.h |  6 ++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index eeb7828..98bb5b6 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -37,10 +37,12 @@ namespace classdesc
       case '\'': return "&apos;";
       case '"': return "&quot;";
       }
-    if (!isgraph(c))
+    // bytes of multibyte characters are passed through unchanged
+    const unsigned char u=c;
+    if (u<0x80 && !isgraph(u))
       {
         std::ostringstream s;
-        s<<"&#"<<std::setfill('0')<<std::setw(4)<<int(c)<<";";
+        s<<"&#"<<std::setfill('0')<<std::setw(4)<<int(u)<<";";
         return s.str();
       }
     return std::string(1,c);
@@ -177,6 +179,12 @@ namespace classdesc
   template <> inline void xml_packp(xml_pack_t& x,const string& d, char& a)
   {x.pack(d,classdesc::xml_quote(a));}
 
+  template <> inline void xml_packp(xml_pack_t& x,const string& d, signed char& a)
+  {x.pack(d,classdesc::xml_quote(char(a)));}
+
+  template <> inline void xml_packp(xml_pack_t& x,const string& d, unsigned char& a)
+  {x.pack(d,classdesc::xml_quote(char(a)));}
+
   /**
      handle enums
   */
diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index e0fe1c1..901a951 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -403,6 +403,12 @@ namespace classdesc
       try {x=std::stold(s);}
       catch(...){istoT(s,x);}    
 #endif
+    // extraction operators skip white space, so a single character is taken as is
+    template <class C> void stoChar(const std::string& s, C& x)
+    {if (s.size()==1) x=C(s[0]); else istoT(s,x);}
+    void stoT(const std::string& s, char& x) {stoChar(s,x);}
+    void stoT(const std::string& s, signed char& x) {stoChar(s,x);}
+    void stoT(const std::string& s, unsigned char& x) {stoChar(s,x);}
     template <class T> void stoT(const std::string& s, T& x)
     {istoT(s,x);}
     
-- 
2.43.0


From d798232f71f7ebea7d778893e192639c8a4ff4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 15/63] fix: XML text that looks like markup once its entities
 are replaced is read as text

---
 xml_unpack_base.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 901a951..2518367 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -89,6 +89,7 @@ namespace classdesc
   {
     Stream& i;
     char nexttok;
+    bool markup; // whether last token returned was markup, rather than text
 
     // basic I/O operations
     bool get(char& c) {return classdesc::get(i,c);}
@@ -110,8 +111,11 @@ namespace classdesc
     char parse_entity();
     std::string retval(char c, const std::string& tok);
   public:
-    XMLtoken(Stream& i): i(i), nexttok('\0') {}
+    XMLtoken(Stream& i): i(i), nexttok('\0'), markup(false) {}
     std::string token();
+    /// true if last token returned is the markup \a tok, and not text that looks like it
+    bool isMarkup(const std::string& last, const char* tok) const
+    {return markup && last==tok;}
     std::string tokenNoEOF() {
       std::string tok=token();
       if (tok.empty()) throw xml_pack_error("XML token expected");
@@ -183,7 +187,8 @@ namespace classdesc
   template <class Stream>
   std::string XMLtoken<Stream>::retval(char c, const std::string& tok)
   {
-    if (tok.empty())
+    markup=tok.empty();
+    if (markup)
       {
         nexttok='\0';
         switch (c)
@@ -257,6 +262,7 @@ namespace classdesc
     std::string tok;
     char c;
 
+    markup=false;
     // handle any tokens left over from previous parsing
     if (nexttok)
       return retval(nexttok,tok);
@@ -491,15 +497,15 @@ namespace classdesc
 
     std::string tok;
     //parse attributes
-    for (tok=stream.tokenNoEOF(); tok!=">" && tok!="/>"; tok=stream.tokenNoEOF())
+    for (tok=stream.tokenNoEOF(); !stream.isMarkup(tok,">") && !stream.isMarkup(tok,"/>"); tok=stream.tokenNoEOF())
       if (!isspace(tok)) process_attribute(stream, scope_idx+"."+tok);
     
     if (tok=="/>") return;
 
     //parse content. We assume element is either just content, or just has child elements
     std::string content;
-    for (tok=stream.tokenNoEOF(); tok!="</"; tok=stream.tokenNoEOF())
-      if (tok=="<")
+    for (tok=stream.tokenNoEOF(); !stream.isMarkup(tok,"</"); tok=stream.tokenNoEOF())
+      if (stream.isMarkup(tok,"<"))
         parse(stream,scope_idx+"."+stream.tokenNoEOF()); //parse child element
       else 
         content+=tok;
-- 
2.43.0


From 7a916000caede11c4b80fd6766413921bb8b207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 16/63] fix: CDATA containing ']' is read back unchanged

---
 xml_pack_base.h   | 9 ++++++++-
 xml_unpack_base.h | 6 +++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index 98bb5b6..055d97b 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -49,7 +49,14 @@ namespace classdesc
   }
 
   inline std::ostream& operator<<(std::ostream& o, const CDATA& x)
-  {return o<<"<![CDATA["<<static_cast<const std::string&>(x)<<"]]>";}
+  {
+    // a terminator within the text has to be split over two sections
+    o<<"<![CDATA[";
+    std::string::size_type start=0, i;
+    for (; (i=x.find("]]>",start))!=std::string::npos; start=i+2)
+      o<<x.substr(start,i+2-start)<<"]]><![CDATA[";
+    return o<<x.substr(start)<<"]]>";
+  }
   
   /**
      XML serialisation object
diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 2518367..2e122f1 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -221,10 +221,10 @@ namespace classdesc
         while ((c=getNoEOF()))
           {
             if (c==']')
-              if (leadin=="]")
-                leadin+=c;
+              if (leadin=="]]")
+                tok+=c; // only the last two can belong to the terminator
               else
-                leadin=c;
+                leadin+=c;
             else if (c=='>' && leadin=="]]")
               return tok;
             else
-- 
2.43.0


From a5bb5eeeba7f60c06a997c37b02f880d13b63893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 17/63] fix: XML end tags that don't match the start tag are an
 error

---
 xml_unpack_base.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 2e122f1..0425d9d 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -515,7 +515,9 @@ namespace classdesc
 
     // finish parsing end tag
     tok=stream.tokenNoEOF();
-    if (scope.length()-scope.rfind(tok)!=tok.length()) //tok matches last part of scope
+    //tok must match last part of scope
+    if (scope!=tok && (scope.length()<=tok.length() || 
+                       scope.compare(scope.length()-tok.length()-1, std::string::npos, "."+tok)!=0))
       throw xml_pack_error("unexpected end tag");
     for (; tok!=">"; tok=stream.tokenNoEOF()); //skip rest of end tag
   }
-- 
2.43.0


From 7e261d88a265cc6f8a8fb7529ada7caf877350bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 18/63] fix: reading a container from a BinStream replaces its
 contents

---
 pack_base.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pack_base.h b/pack_base.h
index 3fc23e1..dc3223f 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -412,6 +412,7 @@ namespace classdesc
     {
       size_t s;
       (*this)>>s;
+      o.clear();
       typename T::value_type v;
       for (size_t i=0; i<s; ++i)
         {
@@ -427,6 +428,7 @@ namespace classdesc
     {
       size_t s;
       (*this)>>s;
+      o.clear();
       typename T::value_type v;
       for (size_t i=0; i<s; ++i)
         {
-- 
2.43.0


From b430acca86f3855b4610fa8940103a3a239f3ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:24 +0000
Subject: [PATCH 19/63] fix: unpacking a sequence doesn't use an iterator
 invalidated by growing it

---
 pack_stl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack_stl.h b/pack_stl.h
index 8d44597..ea95cd5 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -121,7 +121,7 @@ namespace classdesc
     uint64 sz=0, i=0;
     b >> sz;
     resize(a,0);
-    for (typename T::iterator j=a.begin(); i<sz; ++i, ++j)
+    for (; i<sz; ++i)
       {
         typename T::value_type x;
         b >> x;
-- 
2.43.0


From 5112e5183175b6b872b6931a0f287cd682aca6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:24 +0000
Subject: [PATCH 20/63] fix: unpacking an Iterator rejects positions outside
 its container

---
 pack_stl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pack_stl.h b/pack_stl.h
index ea95cd5..bf6a183 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -216,6 +216,8 @@ namespace classdesc_access
       b >> i;
       if (a.container)
         {
+          if (i>a.container->size())
+            throw classdesc::pack_error("iterator position out of range");
           a=a.container->begin();
           std::advance(a.iter(),i);
         }
-- 
2.43.0


From c8b547a9d223e4697601fdbfae22129810833901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:24 +0000
Subject: [PATCH 21/63] fix: unpacking a longer sequence into a std::array
 consumes all of its elements

---
 pack_stl.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pack_stl.h b/pack_stl.h
index bf6a183..8ecccb2 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -135,8 +135,13 @@ namespace classdesc
   {
     uint64 sz=0, i=0;
     b >> sz;
-    for (size_t i=0; i<sz && i<N; ++i)
+    for (; i<sz && i<N; ++i)
       b >> a[i];
+    for (; i<sz; ++i) // skip elements that don't fit
+      {
+        T x;
+        b >> x;
+      }
   }
 #endif
   
-- 
2.43.0


From e3f565d8305dcc1c37987d860604d3664e84da87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:24 +0000
Subject: [PATCH 22/63] fix: a failed reallocation is always reported, and
 leaves the buffer intact

---
 pack_base.h | 12 ++++++------
 xdr_pack.cc |  9 +++++----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index dc3223f..eda5aea 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -177,13 +177,17 @@ namespace classdesc
       return (char*)classdesc::realloc(d,s);
 #endif
     }
-    void realloc(size_t s) {m_data=realloc(m_data,s);}
+    /// resize the allocated storage. Existing data is retained on failure
+    void realloc(size_t s) {
+      char* d=realloc(m_data,s);
+      if (!d && s) throw std::bad_alloc();
+      m_data=d;
+    }
     /** resizes the buffer, leaving any extra allocated space uninitialised
         use this for expanding an input buffer when reading from a stream
      */
     void resize(size_t s) {
       realloc(s);
-      if (!m_data) throw std::bad_alloc();
       m_size=s;
     }
      
@@ -192,8 +196,6 @@ namespace classdesc
       if (mode==buf)
         {
           realloc(m_size+x.size);
-          if (!m_data)
-            throw std::bad_alloc();
           memcpy(m_data+m_size,x.val,x.size);
         }
       else
@@ -255,8 +257,6 @@ namespace classdesc
       if (mode==buf)
         {
           realloc(m_size+s); 
-          if (!m_data && m_size+s)
-            throw std::bad_alloc();
           if (s) memcpy(m_data+m_size,x,s);
         }
       else
diff --git a/xdr_pack.cc b/xdr_pack.cc
index 3fb031f..0b5bbb1 100644
--- a/xdr_pack.cc
+++ b/xdr_pack.cc
@@ -212,10 +212,11 @@ namespace classdesc
   void xdr_pack::newSegment(size_t sz)
     {
       u_int readPos=xdr_getpos(output);
-      asize += xdr_getpos(input);
-      segSize = sz>size_t(BUFCHUNK)? sz: size_t(BUFCHUNK);
-      realloc(asize+segSize);
-      if (m_data==NULL) throw pack_error("Out of memory encoding XDR stream");
+      size_t start = asize+xdr_getpos(input);
+      if (sz<size_t(BUFCHUNK)) sz=BUFCHUNK;
+      realloc(start+sz);
+      asize=start;
+      segSize=sz;
       xdr_destroy(input); xdr_destroy(output);
       xdrmem_create(input,(const caddr_t)data()+asize,segSize,XDR_ENCODE);
       xdrmem_create(output,(const caddr_t)data(),asize+segSize,XDR_DECODE);
-- 
2.43.0


From 7392dcbeece2565bcfe894b7a5bec243c39e7503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 23/63] fix: clearing or resizing an xdr_pack, or using a moved
 from one, no longer uses the old XDR streams' storage

---
 pack_base.h |  8 +++++---
 xdr_pack.cc | 24 ++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index eda5aea..0356426 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -186,7 +186,7 @@ namespace classdesc
     /** resizes the buffer, leaving any extra allocated space uninitialised
         use this for expanding an input buffer when reading from a stream
      */
-    void resize(size_t s) {
+    virtual void resize(size_t s) {
       realloc(s);
       m_size=s;
     }
@@ -251,7 +251,7 @@ namespace classdesc
       if (f) fseek(f,offs,SEEK_CUR); 
       return *this;
     }
-    void clear() {realloc(0); m_data=0; m_size=m_pos=0;}
+    virtual void clear() {realloc(0); m_data=0; m_size=m_pos=0;}
     virtual void packraw(const char *x, size_t s) 
     {
       if (mode==buf)
@@ -342,7 +342,7 @@ namespace classdesc
     xdr_pack(const char *, const char* rw);
     ~xdr_pack();
 #if __cplusplus >= 201103L
-    xdr_pack(xdr_pack&& x): asize(0), segSize(0), input(nullptr), output(nullptr) {swap(x);}
+    xdr_pack(xdr_pack&& x): xdr_pack(size_t(0)) {swap(x);}
     xdr_pack& operator=(xdr_pack&& x) {swap(x); return *this;}
 #endif
 
@@ -352,6 +352,8 @@ namespace classdesc
     virtual xdr_pack& reseto();
     virtual xdr_pack& seeki(long offs);
     virtual xdr_pack& seeko(long offs);
+    virtual void resize(size_t);
+    virtual void clear();
     virtual void packraw(const char *x, size_t sz);
     virtual void unpackraw(char *x, size_t sz);
     virtual void swap(pack_t& other) {
diff --git a/xdr_pack.cc b/xdr_pack.cc
index 0b5bbb1..622ec40 100644
--- a/xdr_pack.cc
+++ b/xdr_pack.cc
@@ -293,6 +293,30 @@ namespace classdesc
     return *this;
   }
 
+  void xdr_pack::resize(size_t sz)
+  {
+    u_int readPos=output? xdr_getpos(output): 0;
+    pack_t::resize(sz);
+    if (mode!=buf) return;
+    // the whole buffer is now data to be read, anything further
+    // encoded starts a new segment
+    asize=sz; segSize=0;
+    xdr_destroy(input); xdr_destroy(output);
+    xdrmem_create(input,(const caddr_t)data()+asize,segSize,XDR_ENCODE);
+    xdrmem_create(output,(const caddr_t)data(),asize,XDR_DECODE);
+    xdr_setpos(output,readPos);
+  }
+
+  void xdr_pack::clear()
+  {
+    pack_t::clear();
+    if (mode!=buf) return;
+    asize=segSize=0;
+    xdr_destroy(input); xdr_destroy(output);
+    xdrmem_create(input,(const caddr_t)data(),segSize,XDR_ENCODE);
+    xdrmem_create(output,(const caddr_t)data(),segSize,XDR_DECODE);
+  }
+
   void xdr_pack::packraw(const char *x, size_t sz) 
   {
     // opaque data is padded to a multiple of 4 bytes
-- 
2.43.0


From b9652427e208f6ad2af4c6e79faa733afbd1dea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 24/63] fix: seeking before the start of a buffer is an error

---
 pack_base.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index 0356426..85f075a 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -242,7 +242,10 @@ namespace classdesc
     virtual pack_t& reseti() {m_size=0; if (f) fseek(f,0,SEEK_SET); return *this;}
     virtual pack_t& reseto() {m_pos=0; if (f) fseek(f,0,SEEK_SET); return *this;}
     virtual pack_t& seeki(long offs) {
-      assert(offs<=0); m_size+=offs; 
+      assert(offs<=0);
+      if (mode==buf && size_t(-offs)>m_size)
+        throw pack_error("seek before start of data");
+      m_size+=offs; 
       if (f) fseek(f,offs,SEEK_CUR); 
       return *this;
     }
-- 
2.43.0


From 259ac83d271617f6a0c22b26806abc2628febae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 25/63] fix: XDR data too large for its 32 bit sizes is an
 error rather than truncated

---
 xdr_pack.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/xdr_pack.cc b/xdr_pack.cc
index 622ec40..eb8f899 100644
--- a/xdr_pack.cc
+++ b/xdr_pack.cc
@@ -72,6 +72,12 @@ namespace classdesc
 {
   struct XDR: public ::XDR {};
 
+  /// XDR sizes and positions are unsigned ints
+  static u_int xdrSize(size_t sz)
+  {
+    if (sz!=u_int(sz)) throw pack_error("XDR data too large");
+    return sz;
+  }
 
   template <>
   xdr_filter XDR_filter(const bool& x)               
@@ -173,6 +179,7 @@ namespace classdesc
   xdr_pack::xdr_pack(size_t sz): pack_t(sz), asize(0), segSize(sz)
   {
     m_size=0; // sz is the capacity, nothing has been encoded yet
+    xdrSize(sz);
     input=new XDR; output=new XDR;
     xdrmem_create(input,(const caddr_t)data(),sz,XDR_ENCODE);
     xdrmem_create(output,(const caddr_t)data(),sz,XDR_DECODE);    
@@ -214,6 +221,7 @@ namespace classdesc
       u_int readPos=xdr_getpos(output);
       size_t start = asize+xdr_getpos(input);
       if (sz<size_t(BUFCHUNK)) sz=BUFCHUNK;
+      xdrSize(start+sz);
       realloc(start+sz);
       asize=start;
       segSize=sz;
@@ -296,6 +304,7 @@ namespace classdesc
   void xdr_pack::resize(size_t sz)
   {
     u_int readPos=output? xdr_getpos(output): 0;
+    xdrSize(sz);
     pack_t::resize(sz);
     if (mode!=buf) return;
     // the whole buffer is now data to be read, anything further
@@ -320,16 +329,17 @@ namespace classdesc
   void xdr_pack::packraw(const char *x, size_t sz) 
   {
     // opaque data is padded to a multiple of 4 bytes
+    u_int xdrSz=xdrSize(sz);
     if (mode==buf && segSize-xdr_getpos(input)<sz+3)
       newSegment(sz+3);
-    if (!xdr_opaque(input,const_cast<char*>(x),sz)) 
+    if (!xdr_opaque(input,const_cast<char*>(x),xdrSz)) 
       throw pack_error("Error encoding XDR stream");
     m_size=asize+xdr_getpos(input);
   }
 
   void xdr_pack::unpackraw(char *x, size_t sz) 
   {
-    if (!xdr_opaque(output,x,sz)) 
+    if (!xdr_opaque(output,x,xdrSize(sz))) 
       throw pack_error("Error encoding XDR stream");
     decoded();
   }
-- 
2.43.0


From 3892a7c7af53c55e8a7b675039dbe253f1722fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 26/63] fix: buffer comparison returns -1, 0 or 1 as operator<
 and > expect

---
 pack_base.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index 85f075a..1ece7c0 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -299,7 +299,10 @@ namespace classdesc
     /// greater than \a x
     virtual int cmp(const pack_t& x) const {
       if (m_size==x.m_size)
-        return memcmp(m_data,x.m_data,m_size);
+        {
+          int c=m_size? memcmp(m_data,x.m_data,m_size): 0;
+          return (c>0)-(c<0);
+        }
       else
         return m_size<x.m_size? -1: 1;
     }
-- 
2.43.0


From 92761030373e302a2a20dbeaf81b41f53a16e6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 27/63] fix: swapping MPI buffers exchanges marks, requests and
 communicator too

---
 classdescMP.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/classdescMP.h b/classdescMP.h
index 0d9d930..b9567fc 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -122,7 +122,20 @@ namespace classdesc
       packraw(x.data(),x.size());
       return *this;
     }
-      
+    /// exchanges all state, including marks and any outstanding request
+    virtual void swap(pack_t& other)
+    {
+      MPIbuf* x=dynamic_cast<MPIbuf*>(&other);
+      if (!x) throw pack_error("cannot swap differing types");
+      MPIbuf_base::swap(other);
+      std::swap(offsets,x->offsets);
+      std::swap(offsctr,x->offsctr);
+      std::swap(request,x->request);
+      std::swap(Communicator,x->Communicator);
+      std::swap(const_buffer,x->const_buffer);
+      std::swap(proc,x->proc);
+      std::swap(tag,x->tag);
+    }
 
     /// returns true if previous asyncronous call has been set
     bool sent() {int is_sent; MPI_Status s; MPI_Test(&request,&is_sent,&s); return is_sent;}
-- 
2.43.0


From 463b545fea2a5755e59814fc1c6656253d38f757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 28/63] fix: nodes beyond the recursion limit no longer
 unpacked through pointers to temporaries

---
 pack_graph.h | 54 +++++++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/pack_graph.h b/pack_graph.h
index 0561251..d909f41 100644
--- a/pack_graph.h
+++ b/pack_graph.h
@@ -86,7 +86,7 @@ namespace classdesc
   inline void pack_graph(pack_t& buf, T& arg)
   {
     static std::map<T,int> graph_map;
-    static std::vector<T*> restart;
+    static std::vector<const T*> restart; // nodes whose contents are yet to be packed
     static unsigned recur_level=0;
     int nought=0;
 
@@ -94,38 +94,39 @@ namespace classdesc
       pack(buf,string(),buf.recur_max);
     recur_level++;
 
-    if (recur_level==buf.recur_max)
-      restart.push_back(&arg); //save ref for restart
-    else if (!arg)   //reference is invalid 
+    if (!arg)   //reference is invalid 
       pack(buf,string(),nought);
     else if (graph_map.count(arg)==0)
       {  
         int ID=graph_map.size()+1;
         graph_map[arg]=ID;
         pack(buf,string(),ID);
-        pack(buf,string(),*arg);
+        if (recur_level>=buf.recur_max)
+          restart.push_back(&graph_map.find(arg)->first); //pack contents on restart
+        else
+          pack(buf,string(),*arg);
       }
     else
       pack(buf,string(),graph_map[arg]);
     
-    recur_level--;
-    if (recur_level==0)   //process restarts
+    if (recur_level==1)   //process restarts
       {
         while (restart.size())
           {
-            T& aa=*restart.back(); //we need to pop_back() before packing
+            const T& aa=*restart.back(); //we need to pop_back() before packing
             restart.pop_back();    //in case further restarts are needed
-            pack_graph(buf,aa);
+            pack(buf,string(),*aa);
           }
         graph_map.clear();
       }
+    recur_level--;
   }
 
   template <class T>
   void unpack_graph(pack_t& buf, T& arg)
   {
     static std::map<int,T> graph_map;
-    static std::vector<T*> restart;
+    static std::vector<T*> restart; // nodes whose contents are yet to be unpacked
     static unsigned recur_level=0;
     int myid;
     Alloc<T> alloc;
@@ -134,35 +135,32 @@ namespace classdesc
       unpack(buf,string(),buf.recur_max);
     recur_level++;
 
-    if (recur_level==buf.recur_max)
-      restart.push_back(&arg); //save ref for restart
+    unpack(buf,string(),myid);
+    if (myid==0) 
+      arg=T();                //reset arg to invalid state
+    else if (graph_map.count(myid))
+      arg=graph_map[myid];
     else
       {
-        unpack(buf,string(),myid);
-        if (myid==0) 
-          arg=T();                //reset arg to invalid state
-        else if (graph_map.count(myid))
-          arg=graph_map[myid];
+        alloc(buf,arg);
+        graph_map[myid]=arg;
+        if (recur_level>=buf.recur_max)
+          restart.push_back(&graph_map[myid]); //unpack contents on restart
         else
-          {
-            alloc(buf,arg);
-            graph_map[myid]=arg;
-            unpack(buf,string(),*arg);
-          }
-
+          unpack(buf,string(),*arg);
       }
-    recur_level--;
-    if (recur_level==0)   //process restarts
+
+    if (recur_level==1)   //process restarts
       {
         while (restart.size())
           {
-            T& aa=*restart.back(); //we need to pop_back() before packing
+            T& aa=*restart.back(); //we need to pop_back() before unpacking
             restart.pop_back();    //in case further restarts are needed
-            unpack_graph(buf,aa);
+            unpack(buf,string(),*aa);
           }
         graph_map.clear();
       }
-
+    recur_level--;
   }
 
   ///serialise a graph structure
-- 
2.43.0


From 7826f21f40e42934ee6c5380eb1c3cba160d0783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 29/63] fix: a failed graph (un)packing no longer corrupts the
 next one

---
 pack_graph.h | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pack_graph.h b/pack_graph.h
index d909f41..45c24c4 100644
--- a/pack_graph.h
+++ b/pack_graph.h
@@ -82,6 +82,22 @@ namespace classdesc
     }
   };
 
+  /// keeps track of recursion into a graph. However the outermost
+  /// level is left, nothing is kept that may confuse the next graph
+  template <class Map, class Restart>
+  class GraphLevel
+  {
+    unsigned& level; Map& map; Restart& restart;
+    GraphLevel(const GraphLevel&);
+    void operator=(const GraphLevel&);
+  public:
+    GraphLevel(unsigned& level, Map& map, Restart& restart): level(level), map(map), restart(restart) {++level;}
+    ~GraphLevel() {
+      if (--level==0)
+        {map.clear(); restart.clear();}
+    }
+  };
+
   template <class T>
   inline void pack_graph(pack_t& buf, T& arg)
   {
@@ -90,9 +106,9 @@ namespace classdesc
     static unsigned recur_level=0;
     int nought=0;
 
-    if (recur_level==0)
+    GraphLevel<std::map<T,int>,std::vector<const T*> > level(recur_level,graph_map,restart);
+    if (recur_level==1)
       pack(buf,string(),buf.recur_max);
-    recur_level++;
 
     if (!arg)   //reference is invalid 
       pack(buf,string(),nought);
@@ -117,9 +133,7 @@ namespace classdesc
             restart.pop_back();    //in case further restarts are needed
             pack(buf,string(),*aa);
           }
-        graph_map.clear();
       }
-    recur_level--;
   }
 
   template <class T>
@@ -131,9 +145,9 @@ namespace classdesc
     int myid;
     Alloc<T> alloc;
     
-    if (recur_level==0)
+    GraphLevel<std::map<int,T>,std::vector<T*> > level(recur_level,graph_map,restart);
+    if (recur_level==1)
       unpack(buf,string(),buf.recur_max);
-    recur_level++;
 
     unpack(buf,string(),myid);
     if (myid==0) 
@@ -158,9 +172,7 @@ namespace classdesc
             restart.pop_back();    //in case further restarts are needed
             unpack(buf,string(),*aa);
           }
-        graph_map.clear();
       }
-    recur_level--;
   }
 
   ///serialise a graph structure
-- 
2.43.0


From 573206b6aabfaadb224ba7d3bfcdb514dec9c292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 30/63] fix: a null character no longer ends a CDATA section

---
 xml_unpack_base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 0425d9d..0d3fd97 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -218,8 +218,9 @@ namespace classdesc
     if (leadin=="[CDATA[")
       { // CDATA processing, add CDATA contents verbatim
         leadin.clear();
-        while ((c=getNoEOF()))
+        for (;;)
           {
+            c=getNoEOF();
             if (c==']')
               if (leadin=="]]")
                 tok+=c; // only the last two can belong to the terminator
-- 
2.43.0


From ea392cb2c46adb11f203351432d4588166065f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 31/63] fix: an empty string read from XML replaces the
 previous value

---
 xml_unpack_base.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 0d3fd97..9746886 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -429,7 +429,7 @@ namespace classdesc
     void unpack(std::string key, bool& var) {
       key=addHashNoughts(key); checkKey(key);
       std::map<std::string,std::string>::const_iterator it=contentMap.find(key);
-      if (it != contentMap.end())
+      if (it != contentMap.end() && !it->second.empty())
         {
           std::string val=it->second;
           // strip any white space
@@ -505,13 +505,17 @@ namespace classdesc
 
     //parse content. We assume element is either just content, or just has child elements
     std::string content;
+    bool hasChildren=false;
     for (tok=stream.tokenNoEOF(); !stream.isMarkup(tok,"</"); tok=stream.tokenNoEOF())
       if (stream.isMarkup(tok,"<"))
-        parse(stream,scope_idx+"."+stream.tokenNoEOF()); //parse child element
+        {
+          hasChildren=true;
+          parse(stream,scope_idx+"."+stream.tokenNoEOF()); //parse child element
+        }
       else 
         content+=tok;
 
-    if (content.size())
+    if (content.size() || !hasChildren) // an empty string is content too
       contentMap[scope_idx]=content; //override content (to handle masked private members)
 
     // finish parsing end tag
-- 
2.43.0


From ab35dea68240ffdbc2bfe3fa9a892532290eb034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 32/63] fix: a poly is not left holding a deleted object when a
 constructor throws

---
 poly.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/poly.h b/poly.h
index 8de2032..44a29ee 100644
--- a/poly.h
+++ b/poly.h
@@ -71,13 +71,13 @@ namespace classdesc
         construction for arbitrary initialisaton.
      */
     template <class U> poly addObject() {
-      delete item; item=new U; TypeTable.register_type(item); 
+      T* old=item; item=new U; delete old; TypeTable.register_type(item); 
       return *this;}
     template <class U, class A> poly addObject(A x) {
-      delete item; item=new U(x); TypeTable.register_type(item); 
+      T* old=item; item=new U(x); delete old; TypeTable.register_type(item); 
       return *this;}
     template <class U, class A1, class A2> poly addObject(A1 x1, A2 x2) {
-      delete item; item=new U(x1,x2); TypeTable.register_type(item); 
+      T* old=item; item=new U(x1,x2); delete old; TypeTable.register_type(item); 
       return *this;}
     //@}
     T* operator->() {assert(item); return item;}
-- 
2.43.0


From 27639d9c828832b40833f14d69e688ae82479c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:16 +0000
Subject: [PATCH 33/63] fix: list each enumerator once, whatever its value's
 expression

---
 classdesc.cc | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 95c6d9d..42909c3 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -267,17 +267,28 @@ void assign_enum_action(tokeninput& input, string prefix)
     {
       nested[prefix].push_back(bareEnumName);
       // load up the list of enum symbols
-      for ( ; input.token != ";"; input.nexttok())
+      for ( ; input.token != "}"; input.nexttok())
         {
-          if (input.token == "=" || input.token == "," || input.token=="}")
-            if (input.lasttoken!=",") //not sure if this is correct C++, but
-              //compilers accept blank enumerator-definitions
-              enum_keys[enumname].push_back(input.lasttoken);
-          if (input.token == "=") {
-            for (input.nexttok(); input.token!="," && input.token!="}";
-                 input.nexttok()); //skip value
+          // enumerators start the list, or follow a comma that is not
+          // part of a value
+          if (isIdentifierStart(input.token[0]) &&
+              (input.lasttoken=="{" || input.lasttoken==","))
+            enum_keys[enumname].push_back(input.token);
+          if (input.token == "=") { //skip value
+            int depth=0;
+            for (input.nexttok(); 
+                 depth>0 || (input.token!="," && input.token!="}"); 
+                 input.nexttok()) 
+              {
+                if (input.token=="(" || input.token=="{" || input.token=="[")
+                  depth++;
+                else if (depth>0 && (input.token==")" || input.token=="}" || input.token=="]"))
+                  depth--;
+              }
+            if (input.token=="}") break;
           }
         }
+      while (input.token != ";") input.nexttok();
       actionlist_t actionlist;
       if (typeName)
         actionlist.push_back(act_pair("","classdesc::enum_handle(arg)"));
-- 
2.43.0


From 75b013b5cf86c3c4ac74f9881da28f740d667f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:16 +0000
Subject: [PATCH 34/63] fix: parse enum struct like enum class

---
 classdesc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 42909c3..0133d33 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -250,7 +250,7 @@ set<string> token_set(const string& s)
 void assign_enum_action(tokeninput& input, string prefix)
 {
   string enumname="enum ";
-  if (input.token=="class")
+  if (input.token=="class" || input.token=="struct")
     {
       input.nexttok();
       enumname+="class ";
-- 
2.43.0


From 82f21a6721489b8f9d54d6b08ae2fe42cb01a093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:16 +0000
Subject: [PATCH 35/63] fix: define the key table of an enumeration without
 enumerators

---
 classdesc.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/classdesc.cc b/classdesc.cc
index 0133d33..e5a838d 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1466,6 +1466,9 @@ int main(int argc, char* argv[])
                              "sizeof(enum_keysData< %s >::keysData[0]));\n",
                              n.c_str(),n.c_str(),n.c_str(),n.c_str(),n.c_str());
                     }
+                  else
+                    printf("template <> EnumKeys< %s > enum_keysData< %s >::keys"
+                           "(NULL,0);\n",n.c_str(),n.c_str());
                   printf("template <> int enumKey< %s >(const std::string& x)"
                          "{return int(enum_keysData< %s >::keys(x));}\n",
                          n.c_str(),n.c_str());
-- 
2.43.0


From 720022574e7faa5be09fa4524ca830b8cbc30eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:16 +0000
Subject: [PATCH 36/63] fix: EnumKeys::has accepts scoped enumerators

---
 classdesc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdesc.h b/classdesc.h
index f465f7c..0011d7d 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -796,7 +796,7 @@ namespace classdesc
     }
     std::string operator()(T val) const {return operator()(int(val));}
 
-    bool has(T val) const {return v2s.count(val);}
+    bool has(T val) const {return v2s.count(int(val));}
     bool has(const std::string& s) const {return s2v.count(s);}
     
     // use these to iterate of the enum's keys
-- 
2.43.0


From c185be9bf975b13ef92c9fee1e16194690cc0a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:16 +0000
Subject: [PATCH 37/63] fix: random_init_t::rand never returns 1

---
 random_init_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random_init_base.h b/random_init_base.h
index e7830e9..f67da99 100644
--- a/random_init_base.h
+++ b/random_init_base.h
@@ -21,7 +21,7 @@ namespace classdesc
   {
   public:
     /// return a uniform random number in [0..1)
-    virtual double rand() {return double(std::rand())/RAND_MAX;}
+    virtual double rand() {return std::rand()/(RAND_MAX+1.0);}
     virtual ~random_init_t() {}
   };
 
-- 
2.43.0


From 413f85c029eb44d7bd93b21985f9a60f84301ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:16 +0000
Subject: [PATCH 38/63] fix: initialise the elements of array members randomly

---
 random_init_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/random_init_base.h b/random_init_base.h
index f67da99..ea6829a 100644
--- a/random_init_base.h
+++ b/random_init_base.h
@@ -84,13 +84,13 @@ namespace classdesc
 
   // array handling
   template <class T>
-  void random_init(random_init_t& r, const string& d, is_array ia, const T& a, 
+  void random_init(random_init_t& r, const string& d, is_array ia, T& a, 
             int ndims,size_t ncopies,...)
   {
     std::va_list ap;
     va_start(ap,ncopies);
     size_t cnt=ncopies;
-    for (int i=ndims-2; i>=0; --i) cnt*=va_arg(ap,size_t);
+    for (int i=ndims-2; i>=0; --i) cnt*=va_arg(ap,int); //extents are passed as int
     va_end(ap);
     for (size_t i=0; i<cnt; ++i)
       random_init(r,d,(&a)[i]);
-- 
2.43.0


From ed29770e684e59fb75a2de0108673ad60f580150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:16 +0000
Subject: [PATCH 39/63] fix: initialise what a unique_ptr holds with
 random_init

---
 random_init_epilogue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random_init_epilogue.h b/random_init_epilogue.h
index b70691c..c405c4e 100644
--- a/random_init_epilogue.h
+++ b/random_init_epilogue.h
@@ -71,7 +71,7 @@ namespace classdesc_access
   {
     void operator()(cd::random_init_t& x, const cd::string& d, 
                     std::unique_ptr<T,D>& a)
-    {json_pack_smart_ptr(x,d,a);}
+    {random_init_smart_ptr(x,d,a);}
   };
 
 #endif
-- 
2.43.0


From 2a5a683532fa6eec2d0c6632057d016510e5927d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:16 +0000
Subject: [PATCH 40/63] fix: treat noexcept functions and methods as functions
 in C++17

---
 function.h | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/function.h b/function.h
index ca65ee2..dea6a35 100644
--- a/function.h
+++ b/function.h
@@ -325,6 +325,39 @@ namespace classdesc
       static const bool value=true;
     };
 
+#if defined(__cplusplus) && __cplusplus>=201703L
+    // noexcept is part of the type since C++17
+    template <class C, class R, class... Args> 
+    struct is_member_function_ptr<R (C::*)(Args...) noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class C, class R, class... Args> 
+    struct is_member_function_ptr<R (C::*)(Args...) const noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class C, class R, class... Args> 
+    struct is_const_method<R (C::*)(Args...) const noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class R, class... Args> 
+    struct is_nonmember_function_ptr<R (*)(Args...) noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class C, class R, class... Args> 
+    struct is_nonmember_function_ptr<R (*C::*)(Args...) noexcept>
+    {
+      static const bool value=true;
+    };
+#endif
+
     // true if C is non const, or M is a const member function or static
     template <class C, class M>
     struct ConstCorrect: public
-- 
2.43.0


From 7cd09b9cb3b3dec44896d686387c538eb475cc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:21 +0000
Subject: [PATCH 41/63] fix: let the access hook befriend the dump,
 xsd_generate, isa, javaClass, RESTProcess and python descriptors

---
 classdesc_access.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/classdesc_access.h b/classdesc_access.h
index 9c6b9c2..cab8a13 100644
--- a/classdesc_access.h
+++ b/classdesc_access.h
@@ -25,6 +25,12 @@ namespace classdesc_access
   template <class T, class Enable> struct access_json_pack;
   template <class T, class Enable> struct access_json_unpack;
   template <class T> struct access_random_init;
+  template <class T> struct access_dump;
+  template <class T> struct access_xsd_generate;
+  template <class T> struct access_isa;
+  template <class T> struct access_javaClass;
+  template <class T, class Enable> struct access_RESTProcess;
+  template <class T, class Enable> struct access_python;
 }
 
 /// add friend statements for each accessor function 
@@ -41,7 +47,13 @@ namespace classdesc_access
   friend struct classdesc_access::access_xml_unpack<type>;              \
   friend struct classdesc_access::access_json_pack<type,void>;          \
   friend struct classdesc_access::access_json_unpack<type,void>;        \
-  friend struct classdesc_access::access_random_init<type>
+  friend struct classdesc_access::access_random_init<type>;             \
+  friend struct classdesc_access::access_dump<type>;                    \
+  friend struct classdesc_access::access_xsd_generate<type>;            \
+  friend struct classdesc_access::access_isa<type>;                     \
+  friend struct classdesc_access::access_javaClass<type>;               \
+  friend struct classdesc_access::access_RESTProcess<type,void>;        \
+  friend struct classdesc_access::access_python<type,void>
 
 // for backward compatibility. Deprecated.
 #define CLASSDESC_ACCESS_TEMPLATE(type) CLASSDESC_ACCESS(type)
-- 
2.43.0


From 3982498b04967cc88181ca1c3c5f538a854985f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:22 +0000
Subject: [PATCH 42/63] fix: static member functions are ignored when dumping
 or generating a schema

---
 dump_base.h         |  1 +
 dump_epilogue.h     | 14 ++++++++++++--
 xsd_generate_base.h |  8 +++++++-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/dump_base.h b/dump_base.h
index 57403f7..d7e437f 100644
--- a/dump_base.h
+++ b/dump_base.h
@@ -18,6 +18,7 @@
 #include <iomanip>
 
 #include "classdesc.h"
+#include "function.h"
 #include <stdarg.h>
 
 namespace classdesc
diff --git a/dump_epilogue.h b/dump_epilogue.h
index 3770a74..2eb7b7e 100644
--- a/dump_epilogue.h
+++ b/dump_epilogue.h
@@ -52,13 +52,23 @@ namespace classdesc
     }
   };
       
-  template <class T> void dump(classdesc::dump_t& o, 
-                               const classdesc::string& d, const T& a)
+  template <class T>
+  typename enable_if<Not<functional::is_nonmember_function_ptr<T> >, void>::T
+  dump_object(dump_t& o, const string& d, const T& a)
   {
     Format<T> f(o,d);
     dumpp(o,d,const_cast<T&>(a));
   }
 
+  /// ignore static member functions
+  template <class T>
+  typename enable_if<functional::is_nonmember_function_ptr<T>, void>::T
+  dump_object(dump_t& o, const string& d, const T& a) {}
+
+  template <class T> void dump(classdesc::dump_t& o, 
+                               const classdesc::string& d, const T& a)
+  {dump_object(o,d,a);}
+
 //  template <class T>
 //  std::ostream& operator<<(std::ostream& o,const T& a)
 //  {dump(&o,"",a);}
diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index d6eba88..aa3253b 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -9,6 +9,7 @@
 #ifndef CLASSDESC_XSD_GENERATE_BASE_H
 #define CLASSDESC_XSD_GENERATE_BASE_H
 #include "classdesc.h"
+#include "function.h"
 #include <map>
 #include <set>
 #include <ostream>
@@ -242,10 +243,15 @@ namespace classdesc
   Not<
     Or<
       Or<is_fundamental<T>,is_container<T> >,
-      is_enum<T>
+      Or<is_enum<T>,functional::is_nonmember_function_ptr<T> >
       >
     >{};
 
+  /// ignore static member functions
+  template <class T>
+  typename enable_if<functional::is_nonmember_function_ptr<T>, void>::T
+  xsd_generate(xsd_generate_t& g, const string& d, const T& a) {}
+
   template <class T>
   typename enable_if<EverythingElse<T>, void>::T
   xsd_generate(xsd_generate_t& g, const string& d, const T& a)
-- 
2.43.0


From 1b53dbb06f912322514df40d7d2facbc291920ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:22 +0000
Subject: [PATCH 43/63] fix: numbers with digit separators do not start a
 character literal

---
 tokeninput.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tokeninput.h b/tokeninput.h
index 784daaa..77a8055 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -220,7 +220,8 @@ public:
       }
     else 
       {
-        while (isalnum(c) || c=='_') 
+        // numbers may contain digit separators
+        while (isalnum(c) || c=='_' || (c=='\'' && isdigit(token[0])))
           {
             token+=c;
             getnextc();
-- 
2.43.0


From 7b7b4d7fc45ab3939c44b843f5471bf199db8094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:22 +0000
Subject: [PATCH 44/63] fix: >> may close template arguments within an argument
 list

---
 tokeninput.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokeninput.h b/tokeninput.h
index 77a8055..e07de42 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -289,7 +289,7 @@ string gobble_delimited(tokeninput& input, const char *left,
       if (input.token==">>" && string(left)=="<") 
         {
           delim_count-=2;
-          if (delim_count<=0) break;
+          if (delim_count<0) break;
         }
     }
    return argList;
-- 
2.43.0


From 20e7f1fa5ec17d93f94f507614ae989a01fdf9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:22 +0000
Subject: [PATCH 45/63] fix: private enumerations do not hide the members
 declared after them

---
 classdesc.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index e5a838d..8e61393 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -247,7 +247,7 @@ set<string> token_set(const string& s)
   return r;
 }
 
-void assign_enum_action(tokeninput& input, string prefix)
+void assign_enum_action(tokeninput& input, string prefix, bool is_private=false)
 {
   string enumname="enum ";
   if (input.token=="class" || input.token=="struct")
@@ -265,13 +265,13 @@ void assign_enum_action(tokeninput& input, string prefix)
 
   if (input.token=="{") /* only assign action if definition, not declaration */
     {
-      nested[prefix].push_back(bareEnumName);
+      if (!is_private) nested[prefix].push_back(bareEnumName);
       // load up the list of enum symbols
       for ( ; input.token != "}"; input.nexttok())
         {
           // enumerators start the list, or follow a comma that is not
           // part of a value
-          if (isIdentifierStart(input.token[0]) &&
+          if (!is_private && isIdentifierStart(input.token[0]) &&
               (input.lasttoken=="{" || input.lasttoken==","))
             enum_keys[enumname].push_back(input.token);
           if (input.token == "=") { //skip value
@@ -288,7 +288,7 @@ void assign_enum_action(tokeninput& input, string prefix)
             if (input.token=="}") break;
           }
         }
-      while (input.token != ";") input.nexttok();
+      if (is_private) return;
       actionlist_t actionlist;
       if (typeName)
         actionlist.push_back(act_pair("","classdesc::enum_handle(arg)"));
@@ -589,10 +589,10 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
       if (input.token=="enum")
 	{
 	  input.nexttok();
-	  if (!is_private && 
-              isIdentifierStart(input.token[0]))  /* named enum */
+          if (isIdentifierStart(input.token[0]))  /* named enum */
             {
-              assign_enum_action(input,prefix);
+              assign_enum_action(input,prefix,is_private);
+              if (input.token==";") continue; // just a declaration
             }
           else
             gobble_delimited(input,"","}");
-- 
2.43.0


From 6fba98db2199a3b6b9bdb12368ff7b48d435b359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:22 +0000
Subject: [PATCH 46/63] fix: initialisers neither hide nor repeat members

---
 classdesc.cc | 64 +++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 61 insertions(+), 3 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 8e61393..892df77 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -356,6 +356,60 @@ public:
   }
 };
 
+/* skip over anything bracketed starting at the current token,
+   finishing on the closing bracket */
+void skip_bracketed(tokeninput& input)
+{
+  if (input.token=="(") gobble_delimited(input,"(",")");
+  else if (input.token=="{") gobble_delimited(input,"{","}");
+  else if (input.token=="[") gobble_delimited(input,"[","]");
+}
+
+/* skip a template argument list if that is what the current < token
+   starts, as opposed to being the less than operator */
+void skip_template_args(tokeninput& input)
+{
+  if (!isIdentifierStart(input.lasttoken[0])) return;
+  tokeninput::mark_t mark=input;
+  int depth=0;
+  do
+    {
+      if (input.token=="<") depth++;
+      else if (input.token==">") depth--;
+      else if (input.token==">>") depth-=2;
+      else skip_bracketed(input);
+      input.nexttok();
+    }
+  while (depth>0 && !strchr(";})]",input.token[0]));
+  if (depth!=0 || (!strchr("({",input.token[0]) && input.token!="::"))
+    input=mark;
+}
+
+/* skip over the initializer, or bit field width of a data member,
+   finishing on the , or ; terminating it */
+void skip_initializer(tokeninput& input)
+{
+  for (; !strchr(";,",input.token[0]); input.nexttok())
+    {
+      if (input.token=="<") skip_template_args(input);
+      skip_bracketed(input);
+    }
+}
+
+/* skip over the member initializers of a constructor, finishing on
+   the { that starts the body */
+void skip_mem_initializers(tokeninput& input)
+{
+  do
+    {
+      for (input.nexttok(); !strchr("({;",input.token[0]); input.nexttok())
+        if (input.token=="<") gobble_delimited(input,"<",">");
+      skip_bracketed(input);
+      for (input.nexttok(); !strchr(",{;",input.token[0]); input.nexttok());
+    }
+  while (input.token==",");
+}
+
 actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", string targs="")
 {
   actionlist_t         actionlist;
@@ -627,10 +681,8 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
                 reg.register_class(input.lasttoken,"",
                                    varname+"." + input.lasttoken );
             }
-          if (input.token[0]=='{')
-            gobble_delimited(input,"{","}");
 	  /* skip over field specifier or initializer */
-	  while (!strchr(";,",input.token[0])) input.nexttok();
+          skip_initializer(input);
 	}
 
       /* operator members - discard these */
@@ -699,8 +751,14 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
               input.nexttok();
               if (input.token=="const") is_const=true;
               if (input.token=="delete") deleted=true;
+              if (input.token==":") skip_mem_initializers(input);
+              if (input.token==",") break; // another declarator follows
+              if (input.token=="(") gobble_delimited(input,"(",")");
+              if (input.token=="<") gobble_delimited(input,"<",">");
             }
 
+          reg.is_const=false; // refers to the return type
+
 	  /* member functions require object passed as well*/
 	  if (isIdentifierStart(memname[0]))
 	    {
-- 
2.43.0


From a34b637f12ba1db7a917a5afbf64d16071157379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:22 +0000
Subject: [PATCH 47/63] fix: the bodies of friend functions do not end the
 class

---
 classdesc.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 892df77..c83c3c7 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -708,8 +708,20 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
       if (input.token=="static") reg.is_static=true;
       if (input.token=="const") reg.is_const=true;
       if (input.token=="friend")  /* skip friend statement */
-        while (input.token!=";")
-          input.nexttok();
+        {
+          while (input.token!=";" && input.token!="{")
+            {
+              input.nexttok();
+              if (input.token=="(") gobble_delimited(input,"(",")");
+            }
+          if (input.token=="{") /* function defined within the class */
+            {
+              gobble_delimited(input,"{","}");
+              reg.is_static=reg.is_const=is_template=false;
+            }
+          rType.erase(); 
+          continue;
+        }
 
       if (input.token[0]=='(') /* member functions, or function pointers */
 	{
-- 
2.43.0


From f5eac1b2c7eb7aa187e14cbe4c8d35fd297c36d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:36 +0000
Subject: [PATCH 48/63] fix: the definition of a named union does not end or
 hide members of the class

---
 classdesc.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/classdesc.cc b/classdesc.cc
index c83c3c7..eb8bb4d 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -666,6 +666,13 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
           continue;
 	}
 	
+      /* skip the definition of named unions */
+      if (input.lasttoken=="union" && isIdentifierStart(input.token[0]))
+        {
+          input.nexttok();
+          if (input.token=="{") gobble_delimited(input,"{","}");
+        }
+
       /* scalar member type */
       if (strchr("{;,:=",input.token[0]) && input.token!="::")
 	{ rType.erase();
-- 
2.43.0


From 9955deab95cabf702046e014bac94428be9e19ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:45 +0000
Subject: [PATCH 49/63] fix: static assertions and decltype specifiers are not
 members

---
 classdesc.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index eb8bb4d..eaf892a 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -708,9 +708,16 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	}
 
       // alignas declarations need to be discarded
-      if (input.token=="alignas") 
+      if (input.token=="alignas" || input.token=="decltype") 
         {input.nexttok(); gobble_delimited(input,"(",")");}
 
+      // as do static assertions
+      if (input.token=="static_assert")
+        {
+          while (input.token!=";") input.nexttok();
+          continue;
+        }
+
       if (input.token=="virtual") is_virtual=true;
       if (input.token=="static") reg.is_static=true;
       if (input.token=="const") reg.is_const=true;
-- 
2.43.0


From 9c40d1d98a56d0234a029dcf037247fd18138cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:45 +0000
Subject: [PATCH 50/63] fix: specifiers apply to all and only the declarators
 of their declaration

---
 classdesc.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index eaf892a..80b9cbc 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -352,7 +352,6 @@ public:
         else
           actionlist.push_back(act_pair("."+name,action,memberName,is_static));
       }
-    is_static=false;
   }
 };
 
@@ -532,6 +531,10 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
   /* now handle members */
   for  (input.nexttok(); input.token!="}"; input.nexttok() )
     {
+      // specifiers apply to all the declarators of a declaration
+      if (input.lasttoken==";") 
+        reg.is_static=reg.is_const=is_template=false;
+
       // handle qt macros
       if (qt)
         {
@@ -720,7 +723,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 
       if (input.token=="virtual") is_virtual=true;
       if (input.token=="static") reg.is_static=true;
-      if (input.token=="const") reg.is_const=true;
+      if (input.token=="const" || input.token=="constexpr") reg.is_const=true;
       if (input.token=="friend")  /* skip friend statement */
         {
           while (input.token!=";" && input.token!="{")
-- 
2.43.0


From f0f7af3f1a35c1f0a834b160ab23b573c1dcda5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 51/63] fix: the last token of a file is not lost when nothing
 follows it

---
 tokeninput.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tokeninput.h b/tokeninput.h
index e07de42..23d38c8 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -27,6 +27,7 @@ class tokeninput
   int lineno;
   char getnextc() 
   {
+    if (c==EOF) throw eof(); // the end of input was already returned
     c=fgetc(inputstream); 
     switch (c)
       {
@@ -56,9 +57,6 @@ class tokeninput
         else
           {ungetc(c,inputstream); c='[';}
         break;
-      case EOF:
-        throw eof();
-        break;
       }
     if (outputstream &&!feof(inputstream)) 
       fputc(c,outputstream); 
@@ -68,7 +66,7 @@ public:
   struct eof {};  /* signal end of input */
   string token, lasttoken, tokenBeforeLast;
   tokeninput(FILE* in, FILE* out=NULL) 
-  {inputstream=in; outputstream=out; getnextc(); lineno=1;}
+  {inputstream=in; outputstream=out; c=0; getnextc(); lineno=1;}
 
   int line() const {return lineno;}
 
-- 
2.43.0


From 2851c14feff4de5c1cfc3798a0a0c50466896929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:44 +0000
Subject: [PATCH 52/63] fix: a type a member's declaration only mentions is not
 a nested type

---
 classdesc.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 80b9cbc..8bdc95f 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -621,11 +621,16 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  else
 	    targs2=targs+targs1;
 	  input.nexttok();
-          if (!is_private && !is_template) nested[prefix].push_back(input.token);
+          string nestedName=input.token;
 	  /* handle new templated typename rules */
 	  if (targs.length()) input.lasttoken="typename";
 	  if (isIdentifierStart(input.token[0]))  /* named class */
-	    assign_class_action(input,prefix,targs2,targs1,is_private);
+            {
+              assign_class_action(input,prefix,targs2,targs1,is_private);
+              // otherwise it is just the type of a member
+              if (!is_private && !is_template && strchr("};",input.token[0]))
+                nested[prefix].push_back(nestedName);
+            }
 	  else
 	    {
               cerr <<inputFile<<":"<<input.line()<<"::error";
-- 
2.43.0


From b0204be9f6e67e67fbaf933ffcc71a24be76af4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:27 +0000
Subject: [PATCH 53/63] fix: describe classes that are final or have an
 alignment

---
 classdesc.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/classdesc.cc b/classdesc.cc
index 8bdc95f..3f4e348 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -355,6 +355,19 @@ public:
   }
 };
 
+/* skip over any alignment specifiers of a class */
+void skip_alignas(tokeninput& input)
+{
+  string classtok=input.lasttoken;
+  while (input.token=="alignas")
+    {
+      input.nexttok();
+      gobble_delimited(input,"(",")");
+      input.nexttok();
+      input.lasttoken=classtok;
+    }
+}
+
 /* skip over anything bracketed starting at the current token,
    finishing on the closing bracket */
 void skip_bracketed(tokeninput& input)
@@ -621,6 +634,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  else
 	    targs2=targs+targs1;
 	  input.nexttok();
+          skip_alignas(input);
           string nestedName=input.token;
 	  /* handle new templated typename rules */
 	  if (targs.length()) input.lasttoken="typename";
@@ -1113,6 +1127,7 @@ void assign_class_action(tokeninput& input, string prefix, string targs, string
       input.nexttok();
       classname+="::"+input.token;
     }
+  if (input.token=="final") input.nexttok();
   if (strchr(":{",input.token[0]))
     {
       action_t action(classtok+classname,
@@ -1431,6 +1446,7 @@ int main(int argc, char* argv[])
  	  if (input.token=="class" || input.token=="struct")
 	    {
 	      input.nexttok();
+              skip_alignas(input);
 	      if (isIdentifierStart(input.token[0]))  /* named class */
                 
 		assign_class_action(input,namespace_name,targs,targs,false);
-- 
2.43.0


From 93d685708cdbf6485ef2812136df2db3f7b5cb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:20 +0000
Subject: [PATCH 54/63] fix: the type descriptors of constant static arrays do
 not refer to an object

---
 classdesc.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 3f4e348..70bf23c 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1738,7 +1738,8 @@ int main(int argc, char* argv[])
                       printf("::%s_type<_CD_TYPE,%s >(targ,desc+\"%s\",&%s::%s);\n",
                              action[k], type_arg_name.c_str(),
                              aj.name.c_str(),without_type_qualifier(type_arg_name).c_str(),aj.member.c_str());
-                    else if (aj.action.find("classdesc::is_const_static")==0 && use_mbr_pointers)
+                    else if (aj.action.find("classdesc::is_const_static")==0 && use_mbr_pointers &&
+                             aj.action.find("classdesc::is_array")==string::npos)
                       printf("::%s_type<_CD_TYPE,%s >(targ,desc+\"%s\",%s);\n",
                              action[k], type_arg_name.c_str(),aj.name.c_str(),aj.action.c_str());
                       
-- 
2.43.0


From d929c50b062fbbeebea85e785672129cef00400b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:11 +0000
Subject: [PATCH 55/63] fix: class templates may contain enumerations

---
 classdesc.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 70bf23c..0d4127f 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -247,7 +247,7 @@ set<string> token_set(const string& s)
   return r;
 }
 
-void assign_enum_action(tokeninput& input, string prefix, bool is_private=false)
+void assign_enum_action(tokeninput& input, string prefix, bool is_private=false, bool in_template=false)
 {
   string enumname="enum ";
   if (input.token=="class" || input.token=="struct")
@@ -288,7 +288,8 @@ void assign_enum_action(tokeninput& input, string prefix, bool is_private=false)
             if (input.token=="}") break;
           }
         }
-      if (is_private) return;
+      // enums of template classes cannot be specialised for
+      if (is_private || in_template) return;
       actionlist_t actionlist;
       if (typeName)
         actionlist.push_back(act_pair("","classdesc::enum_handle(arg)"));
@@ -667,7 +668,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  input.nexttok();
           if (isIdentifierStart(input.token[0]))  /* named enum */
             {
-              assign_enum_action(input,prefix,is_private);
+              assign_enum_action(input,prefix,is_private,targs.length());
               if (input.token==";") continue; // just a declaration
             }
           else
-- 
2.43.0


From 51dd37971bb26c56cdd1e238e50c2d9ad81a12d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:28 +0000
Subject: [PATCH 56/63] fix: comments and strings in preprocessor directives
 end where they end

---
 tokeninput.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tokeninput.h b/tokeninput.h
index 23d38c8..f64ddd9 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -90,11 +90,22 @@ public:
     while (isspace(c)) getnextc();
     while (c=='#')
       {
+        bool in_string=false;
         while (c!='\n' && !feof(inputstream)) 
           {
             if (c!='\r') token+=c; //ignore '\r' (DOS files)
-            if (c=='/' && getnextc()=='*') /* strip comments */
-              for (char l=getnextc(); l!='*' || c!='/'; l=c, getnextc());
+            if (c=='"' && (token.length()<2 || token[token.length()-2]!='\\')) in_string=!in_string;
+            if (c=='/' && !in_string)
+              {
+                getnextc();
+                if (c=='*') /* strip comments */
+                  for (char l=getnextc(); l!='*' || c!='/'; l=c, getnextc());
+                else 
+                  {
+                    if (c=='/') while (c!='\n' && !feof(inputstream)) getnextc();
+                    continue;
+                  }
+              }
             getnextc();
           }
         if (token.find("#pragma")==0) 
-- 
2.43.0


From 84c1c497ca96633d319aa7dacc73db1c91a2dfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:39 +0000
Subject: [PATCH 57/63] fix: MultiArray computes the stride however it is made,
 without dividing by an extent

---
 multiArray.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/multiArray.h b/multiArray.h
index 0feacac..b78bfa3 100644
--- a/multiArray.h
+++ b/multiArray.h
@@ -27,21 +27,25 @@ namespace classdesc
     size_t dim[Rank];
     size_t m_stride=1;
 
+    // the number of elements in each element of this
+    void calcStride()
+    {
+      m_stride=1;
+      for (int i=0; i<Rank-1; ++i) m_stride*=dim[i];
+    }
+
     friend void advance<T,Rank>(MultiArray<T,Rank>&,std::ptrdiff_t);
     
 #if defined(__cplusplus) && __cplusplus>=201703L
     void constructDim(size_t& d, size_t dd)
     {
       dim[d++]=dd;
-      m_stride*=dd;
     }
     template <class... Args>
     void constructDims(size_t d, Args... args)
     {
-      m_stride=1;
       (constructDim(d,args),...);
-      // fold expression multiplies m_stride by one too many dimensions
-      if (d>0) m_stride/=dim[d-1];
+      calcStride();
     }
 #else
 
@@ -49,12 +53,12 @@ namespace classdesc
     {
       assert(d==Rank-1);
       dim[d]=d1;
+      calcStride();
     }
     template <class... Args>
     void constructDims(size_t d, size_t d1, Args... args)
     {
       dim[d]=d1;
-      m_stride*=d1;
       constructDims(d+1, args...);
     }
 #endif
@@ -76,6 +80,7 @@ namespace classdesc
     MultiArray(T* data, const size_t a_dim[]): m_data(data)
     {
       memcpy(dim, a_dim, sizeof(dim));
+      calcStride();
     }
     
     size_t size() const {return dim[Rank-1];}
@@ -84,7 +89,8 @@ namespace classdesc
       return MultiArray<T,Rank-1>(m_data+i*m_stride, dim);
     }
     MultiArray<T,Rank-1> operator[](size_t i)  {
-      return MultiArray<T,Rank-1>(m_data+i*m_stride, dim);
+      const size_t* d=dim; // otherwise taken for a dimension
+      return MultiArray<T,Rank-1>(m_data+i*m_stride, d);
     }
 
     /// return if this refers to the same memory location as x
-- 
2.43.0


From 04b9d6e4052499d8106afd94b9b24f0fdbe3708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:39 +0000
Subject: [PATCH 58/63] fix: insert-friend passes attributes and trailing
 characters through and inserts between tokens

---
 insert-friend.cc |  3 +-
 tokeninput.h     | 87 +++++++++++++++++++++++++++++-------------------
 2 files changed, 55 insertions(+), 35 deletions(-)

diff --git a/insert-friend.cc b/insert-friend.cc
index ed2191a..d004e8f 100644
--- a/insert-friend.cc
+++ b/insert-friend.cc
@@ -122,6 +122,7 @@ void insert_friend(tokeninput& input, string prefix, string targs,
 	{
 	  /* advance to end of class definition */
 	  if (input.token!="}") gobble_delimited(input,"{","}");
+	  while (input.token!=";") input.nexttok();
 	  printf("\n#define CLASSDESC_TDEC template%s\n",targs.c_str());
 	  if (classname.find('<')==classname.npos) 
 	    classname += extract_targs(targs);
@@ -178,7 +179,7 @@ int main(int argc, char* argv[])
 		}
 	    }
  	  if ((input.token=="class" || input.token=="struct") &&
-	      input.lasttoken!="friend") 
+	      input.lasttoken!="friend" && input.lasttoken!="enum") 
 	    {
 	      input.nexttok();
 #if (defined(__osf__) && !defined(__GNUC__))
diff --git a/tokeninput.h b/tokeninput.h
index f64ddd9..f24c1fe 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -25,48 +25,67 @@ class tokeninput
   FILE* outputstream;
   int c;
   int lineno;
-  char getnextc() 
+  /* copy input being passed over to the output stream */
+  void echo(int x) {if (outputstream && x!=EOF) fputc(x,outputstream);}
+  int readc() 
   {
-    if (c==EOF) throw eof(); // the end of input was already returned
-    c=fgetc(inputstream); 
-    switch (c)
+    int x=fgetc(inputstream);
+    if (x=='\n') lineno++;
+    return x;
+  }
+  void unreadc(int x)
+  {
+    if (x=='\n') lineno--;
+    if (x!=EOF) ungetc(x,inputstream);
+  }
+  /* load the next character to be looked at */
+  void loadc()
+  {
+    for (;;)
       {
-      case '\n':
-        //printf("%d\n",lineno);  /* for debugging purposes */
-        lineno++;
-        break;
-
-      case '\\': /* check for and remove any line continuations */
-        c=fgetc(inputstream); 
-        if (c=='\n') 
+        int next;
+        c=readc(); 
+        switch (c)
           {
-            c=fgetc(inputstream); 
-            if (outputstream) fprintf(outputstream,"\\\n");
-          }
-        else {ungetc(c,inputstream); c='\\';}
-        break;
+          case '\\': /* check for and remove any line continuations */
+            next=readc();
+            if (next!='\n') {unreadc(next); return;}
+            echo(c);
+            echo(next);
+            break;
 
-      case '[':
-        c=fgetc(inputstream); 
-        if (c=='[') // attribute leadin - discard attribute
-          {
-            char lc=c;
-            while ((c=fgetc(inputstream)) != ']' || lc!=']') lc=c;
-            getnextc();
+          case '[':
+            next=readc();
+            if (next!='[') {unreadc(next); return;}
+            // attribute leadin - discard attribute
+            echo(c);
+            echo(next);
+            for (int last=next; (next=readc())!=EOF; last=next)
+              {
+                echo(next);
+                if (next==']' && last==']') break;
+              }
+            break;
+
+          default:
+            return;
           }
-        else
-          {ungetc(c,inputstream); c='[';}
-        break;
       }
-    if (outputstream &&!feof(inputstream)) 
-      fputc(c,outputstream); 
+  }
+  /* the current character is passed over, and only now echoed, so that
+     anything written between tokens does not end up inside one */
+  char getnextc() 
+  {
+    if (c==EOF) throw eof(); // the end of input was already returned
+    echo(c);
+    loadc();
     return c;
   }
 public:
   struct eof {};  /* signal end of input */
   string token, lasttoken, tokenBeforeLast;
   tokeninput(FILE* in, FILE* out=NULL) 
-  {inputstream=in; outputstream=out; c=0; getnextc(); lineno=1;}
+  {inputstream=in; outputstream=out; lineno=1; loadc();}
 
   int line() const {return lineno;}
 
@@ -84,14 +103,14 @@ public:
     
   nexttok_again:
     token.erase();
-    if (feof(inputstream)) throw eof();
+    if (c==EOF) throw eof();
 
     /* skip white space and # control lines */
     while (isspace(c)) getnextc();
     while (c=='#')
       {
         bool in_string=false;
-        while (c!='\n' && !feof(inputstream)) 
+        while (c!='\n' && c!=EOF) 
           {
             if (c!='\r') token+=c; //ignore '\r' (DOS files)
             if (c=='"' && (token.length()<2 || token[token.length()-2]!='\\')) in_string=!in_string;
@@ -102,7 +121,7 @@ public:
                   for (char l=getnextc(); l!='*' || c!='/'; l=c, getnextc());
                 else 
                   {
-                    if (c=='/') while (c!='\n' && !feof(inputstream)) getnextc();
+                    if (c=='/') while (c!='\n' && c!=EOF) getnextc();
                     continue;
                   }
               }
@@ -114,7 +133,7 @@ public:
           token.erase();
         while (isspace(c)) getnextc();
       }
-    if (feof(inputstream)) throw eof();
+    if (c==EOF) throw eof();
 
     if (c=='"' || c=='\'')   /* handle strings and chars */
       {
-- 
2.43.0


From 52452da4d0d27734d69055f12938774b6805640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:38 +0000
Subject: [PATCH 59/63] fix: an unrecognised option is reported instead of
 looping forever

---
 classdesc.cc     | 6 ++++++
 insert-friend.cc | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/classdesc.cc b/classdesc.cc
index 0d4127f..58ddc9b 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1275,6 +1275,7 @@ int main(int argc, char* argv[])
   include_path.push_back(".");
   while (argc>1 && argv[1][0]=='-')  /* process options */
     {
+      const int nargs=argc;
       if (strcmp(argv[1],"-workdir")==0)  /* place output files in workdir */
 	{
           if (argc<3) {puts("option argument missing"); return 1;} 
@@ -1345,6 +1346,11 @@ int main(int argc, char* argv[])
           argc--; argv++;
           qt=true;
         }
+      if (argc==nargs)
+        {
+          fprintf(stderr,"unrecognised option %s\n",argv[1]);
+          return 1;
+        }
     }
 
   FILE* inputStream=stdin;
diff --git a/insert-friend.cc b/insert-friend.cc
index d004e8f..cfd8128 100644
--- a/insert-friend.cc
+++ b/insert-friend.cc
@@ -150,6 +150,8 @@ int main(int argc, char* argv[])
 //	    targ_map[guessed_type]=real_type;	
 //	  argc-=2; argv+=2;
 //	}
+      fprintf(stderr,"unrecognised option %s\n",argv[1]);
+      return 1;
     }
   
 
-- 
2.43.0


From e27c6a825bb429490baaf2dd04fabbce5cfba514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:38 +0000
Subject: [PATCH 60/63] fix: an input or output file that cannot be opened is
 reported with a failure status

---
 classdesc.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 58ddc9b..b90a4dc 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1355,7 +1355,14 @@ int main(int argc, char* argv[])
 
   FILE* inputStream=stdin;
   if (inputFile!="stdin") 
-    inputStream=fopen(inputFile.c_str(),"rb");
+    {
+      inputStream=fopen(inputFile.c_str(),"rb");
+      if (inputStream==NULL)
+        {
+          fprintf(stderr,"cannot open %s\n",inputFile.c_str());
+          return 1;
+        }
+    }
       
   tokeninput input(inputStream);
 
@@ -1762,6 +1769,11 @@ int main(int argc, char* argv[])
                   if (!isalnum(oname[l])) oname[l]='_';
                 oname=workdir+oname+".cc";
                 FILE *o=fopen(oname.c_str(),"a");
+                if (o==NULL)
+                  {
+                    fprintf(stderr,"cannot open %s\n",oname.c_str());
+                    return 1;
+                  }
                 if (stdinclude.length() && !header_written.count(oname))
                   {
                     fprintf(o,"#include \"%s\"\n",stdinclude.c_str());
-- 
2.43.0


From 80f0f641b1c2cbf3f2ec506169d5b1db5087d365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:38 +0000
Subject: [PATCH 61/63] fix: malformed template argument lists are not read
 past their end

---
 classdesc.cc     | 5 +++--
 insert-friend.cc | 8 +++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index b90a4dc..d7a08f2 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1078,7 +1078,7 @@ string extract_targs(string targs)
 	  else if (*targsptr=='<')  /* skip over stuff between <..> */
 	    {
 	      int angle_count=1;
-	      while (angle_count)
+	      while (angle_count && targsptr[1])
 		{
 		  targsptr++;
 		  if (*targsptr=='<') angle_count++;
@@ -1088,9 +1088,10 @@ string extract_targs(string targs)
 	  else if (*targsptr=='=')
 	    {
 	      for (int angle_count=0;
-		   !strchr(">,",*(targsptr)) || angle_count; targsptr++)
+		   *targsptr && (!strchr(">,",*(targsptr)) || angle_count); targsptr++)
 		if (*targsptr=='<') angle_count++;
 		else if (*targsptr=='>') angle_count--;
+	      if (!*targsptr) break;    /* end of string already */
               // not sure, but inserting elipsis here might be a C++
               // grammatical error
 	      r+=tok+elipsis+*targsptr;
diff --git a/insert-friend.cc b/insert-friend.cc
index cfd8128..f2ed7a3 100644
--- a/insert-friend.cc
+++ b/insert-friend.cc
@@ -39,10 +39,11 @@ string extract_targs(string targs)
       else  
 	{
 	  while (isspace(*targsptr)) targsptr++;/* skip any spaces */
-	  if (*targsptr=='<')  /* skip over stuff between <..> */
+	  if (!*targsptr) break;    /* end of string already */
+	  else if (*targsptr=='<')  /* skip over stuff between <..> */
 	    {
 	      int angle_count=1;
-	      while (angle_count)
+	      while (angle_count && targsptr[1])
 		{
 		  targsptr++;
 		  if (*targsptr=='<') angle_count++;
@@ -52,9 +53,10 @@ string extract_targs(string targs)
 	  else if (*targsptr=='=') 
 	    {
 	      for (int angle_count=0; 
-		   !strchr(">,",*(targsptr)) || angle_count; targsptr++)
+		   *targsptr && (!strchr(">,",*(targsptr)) || angle_count); targsptr++)
 		if (*targsptr=='<') angle_count++;
 		else if (*targsptr=='>') angle_count--;
+	      if (!*targsptr) break;    /* end of string already */
 	      r+=tok+*targsptr;
 	    }
 	  else if (strchr(">,",*targsptr))  r+=tok+*targsptr;
-- 
2.43.0


From b8903572c18c9496b588165e27d1c81d3358377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:38 +0000
Subject: [PATCH 62/63] fix: input that cannot be repositioned is not taken to
 be at its end

---
 tokeninput.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tokeninput.h b/tokeninput.h
index f24c1fe..53e242f 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -7,6 +7,7 @@
 */
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <ctype.h>
 #include <stdio.h>
 #include <iostream>
@@ -281,10 +282,14 @@ void tokeninput::operator=(mark_t& x)
 { 
   *this=x.tokinp; 
 #ifdef USE_FSEEK /* some OSes have buggy fsetpos routines */
-  if (fseek(inputstream,x.offset,SEEK_SET)) throw eof();
+  if (fseek(inputstream,x.offset,SEEK_SET))
 #else
-  if (fsetpos(inputstream,&(x.fp))) throw eof();
+  if (fsetpos(inputstream,&(x.fp)))
 #endif
+    { // not to be taken for the end of the input
+      fputs("input cannot be repositioned, is it a regular file?\n",stderr);
+      exit(1);
+    }
 }
 
 int tokeninput::operator>(mark_t& x)
-- 
2.43.0


From 5c1fa3ea6bad729fee8a179491908a2ee3a88115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:58 +0000
Subject: [PATCH 63/63] fix: reinstate template arguments of shorn class names
 only once, and only for whole names

The text between two occurrences was copied with a length that is a
position, so all after it appeared again, and names that merely contain
the name of the class had arguments inserted into them.
---
 classdesc.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index d7a08f2..9e65e57 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -310,14 +310,17 @@ string replaceShornTypes(const string& input, const string& shornType, const str
   string r;
   for (size_t i=0, j=input.find(shornType); i!=string::npos; i=j, j=input.find(shornType,i))
     {
-      r+=input.substr(i,j);
+      r+=input.substr(i,j-i);
       if (j!=string::npos)
         {
+          // ignore names that merely contain the type's name
+          bool shorn=j==0 || (!isalnum(input[j-1]) && input[j-1]!='_');
           j+=shornType.size();
           size_t k=j;
+          shorn=shorn && (k>=input.size() || (!isalnum(input[k]) && input[k]!='_'));
           // check if '<' is the next non white space character
           while (k<input.size() && isspace(input[k])) ++k;
-          if (k>=input.size() || input[k]!='<')
+          if (shorn && (k>=input.size() || input[k]!='<'))
             r+=fullType;
           else
             r+=shornType;
-- 
2.43.0

