From e27505b188c5c31e4dc02a25126605ae4cc7adf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 01/33] fix: RaftException never frees its copy of the message

---
 raftinc/raftexception.hpp |  2 +-
 src/raftexception.cpp     | 16 ++--------------
 2 files changed, 3 insertions(+), 15 deletions(-)

diff --git a/raftinc/raftexception.hpp b/raftinc/raftexception.hpp
index 5454ca8..c7427f0 100644
--- a/raftinc/raftexception.hpp
+++ b/raftinc/raftexception.hpp
@@ -30,7 +30,7 @@ public:
    
     virtual const char* what() const noexcept;
 private:
-    const char *message = nullptr;
+    const std::string message;
 };
 
 /** 
diff --git a/src/raftexception.cpp b/src/raftexception.cpp
index aa40faa..4f82afd 100644
--- a/src/raftexception.cpp
+++ b/src/raftexception.cpp
@@ -24,24 +24,12 @@
 #include "raftexception.hpp"
 
 RaftException::RaftException( const std::string message ) : 
-    message( 
-#if (defined _WIN64 ) || (defined _WIN32) 
-    /**
-     * fix for warning C4996: 'strdup': The POSIX name for this item is
-     * a bit annoying given it is a POSIX function, but this is the best
-     * we can do, see: https://bit.ly/2TH0Jci
-     */
-    _strdup( message.c_str() )
-#else //everybody else
-    strdup( message.c_str() ) 
-#endif
-    )
+    message( message )
 {
 }
 
 const char*
 RaftException::what() const noexcept
 {
-    assert( message != nullptr );
-    return( message );
+    return( message.c_str() );
 }
-- 
2.43.0


From d71226794f176ade750af23532bbad750f4d7298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 02/33] fix: peek_range applied the read pointer twice when
 indexing signals

---
 raftinc/ringbufferheap.tcc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 461d3cc..c666584 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -465,7 +465,8 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const std::size_t cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      /** base of the signal array, autorelease adds the read pointer **/
+      *sig =  reinterpret_cast< void* >(  buff_ptr->signal );
       *ptr =  buff_ptr->store;
       return;
    }
@@ -905,7 +906,8 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const auto cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      /** base of the signal array, autorelease adds the read pointer **/
+      *sig =  reinterpret_cast< void* >(  buff_ptr->signal );
       *ptr =  buff_ptr->store;
       return;
    }
@@ -1390,7 +1392,8 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const auto cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      /** base of the signal array, autorelease adds the read pointer **/
+      *sig =  reinterpret_cast< void* >(  buff_ptr->signal );
       *ptr =  buff_ptr->store;
       return;
    }
-- 
2.43.0


From 49572287f564c6e135170be9ae249397984a56d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 03/33] fix: pop destroyed but never freed externally allocated
 elements

---
 raftinc/ringbufferheap.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index c666584..ccf6684 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -1280,7 +1280,7 @@ protected:
       /**
        * fix for bug #76 - jcb 18Nov2018
        */
-      head->~T();
+      delete( head );
       (this)->datamanager.exitBuffer( dm::pop );
    }
 
-- 
2.43.0


From a2958406daef73e044d6f097db41e43d3ff46530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 04/33] fix: deallocate destroyed the element at the head of
 the queue instead of the allocated one

---
 raftinc/ringbufferheap.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index ccf6684..79c30fd 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -494,8 +494,8 @@ public:
    virtual void deallocate()
    {
       auto * const buff_ptr( (this)->datamanager.get() );
-      const auto read_index( Pointer::val( buff_ptr->read_pt ) );
-      auto * const ptr = reinterpret_cast< T* >( &( buff_ptr->store[ read_index ] ) );
+      const auto write_index( Pointer::val( buff_ptr->write_pt ) );
+      auto * const ptr = reinterpret_cast< T* >( &( buff_ptr->store[ write_index ] ) );
       /** destruct **/
       ptr->~T();
       (this)->producer_data.allocate_called = false;
-- 
2.43.0


From dd29c43593445389190bdd4875c78dc6ee9423a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 05/33] fix: send_range attached the signal to the first
 element of the range instead of the last

---
 raftinc/ringbufferheap.tcc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 79c30fd..9ec1c37 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -92,7 +92,9 @@ public:
         return;
       }
       /** should be the end of the write, regardless of which allocate called **/
-      const size_t write_index( Pointer::val( (this)->datamanager.get()->write_pt ) );
+      const size_t write_index( ( Pointer::val( (this)->datamanager.get()->write_pt ) +
+                                  (this)->producer_data.n_allocated - 1 ) % 
+                                     (this)->datamanager.get()->max_cap );
       (this)->datamanager.get()->signal[ write_index ] = signal;
       /* only need to inc one more **/
       auto &n_allocated( (this)->producer_data.n_allocated );
@@ -538,7 +540,9 @@ public:
         }
         auto * const buff_ptr( (this)->datamanager.get() );
         /** should be the end of the write, regardless of which allocate called **/
-        const size_t write_index( Pointer::val( buff_ptr->write_pt ) );
+        const size_t write_index( ( Pointer::val( buff_ptr->write_pt ) +
+                                    (this)->producer_data.n_allocated - 1 ) % 
+                                       buff_ptr->max_cap );
         buff_ptr->signal[ write_index ] = signal;
         /* only need to inc one more, the rest have already**/
         auto &n_allocated( (this)->producer_data.n_allocated );
@@ -982,7 +986,9 @@ public:
    {
       if( ! (this)->producer_data.allocate_called ) return;
       /** should be the end of the write, regardless of which allocate called **/
-      const size_t write_index( Pointer::val( (this)->datamanager.get()->write_pt ) );
+      const size_t write_index( ( Pointer::val( (this)->datamanager.get()->write_pt ) +
+                                  (this)->producer_data.n_allocated - 1 ) % 
+                                     (this)->datamanager.get()->max_cap );
       (this)->datamanager.get()->signal[ write_index ] = signal;
       auto &n_allocated( (this)->producer_data.n_allocated );
       Pointer::incBy( (this)->datamanager.get()->write_pt,
-- 
2.43.0


From f1f02b09af5881bbc6250ea7264a8342693c05e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 06/33] fix: signal buffer length was computed from the element
 size, resize copied past its end

---
 raftinc/database.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raftinc/database.tcc b/raftinc/database.tcc
index cf0a446..5bbbdfe 100644
--- a/raftinc/database.tcc
+++ b/raftinc/database.tcc
@@ -43,7 +43,7 @@ template < class T > struct DataBase
 {
     DataBase( const std::size_t max_cap ) : max_cap ( max_cap ),
                                             length_store( sizeof( T ) * max_cap ),
-                                            length_signal( sizeof( T ) * max_cap ),
+                                            length_signal( sizeof( Signal ) * max_cap ),
                                             dynamic_alloc_size( length_store +
                                                                 length_signal )
                                             {}
-- 
2.43.0


From 128f454e33c224f6c4ec5e8bf12fe877b9d4a9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 07/33] fix: blocking statistics were written through pointers
 into the buffer freed by resize

---
 raftinc/fifoabstract.tcc            | 10 ++++++----
 raftinc/ringbufferheap_abstract.tcc |  6 +++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/raftinc/fifoabstract.tcc b/raftinc/fifoabstract.tcc
index 7423514..f7c7e09 100644
--- a/raftinc/fifoabstract.tcc
+++ b/raftinc/fifoabstract.tcc
@@ -39,10 +39,10 @@ protected:
 
     inline void init() noexcept
     {
-        auto * const buffer( datamanager.get() );
-        assert( buffer != nullptr );
-        producer_data.write_stats = &buffer->write_stats;
-        consumer_data.read_stats  = &buffer->read_stats;
+        assert( datamanager.get() != nullptr );
+        /** owned by the FIFO, must outlive a resize of the buffer **/
+        producer_data.write_stats = &producer_data.stats;
+        consumer_data.read_stats  = &consumer_data.stats;
     }
 
     struct ALIGN( L1D_CACHE_LINE_SIZE ) {
@@ -62,6 +62,7 @@ protected:
          * for cache performance.
          */
         Blocked                     *write_stats = nullptr;
+        Blocked                      stats;
     } producer_data;
    
    
@@ -74,6 +75,7 @@ protected:
         ptr_map_t                   *in         = nullptr;
         ptr_set_t                   *in_peek    = nullptr;
         Blocked                     *read_stats = nullptr;
+        Blocked                      stats;
     } consumer_data;
     
     /** 
diff --git a/raftinc/ringbufferheap_abstract.tcc b/raftinc/ringbufferheap_abstract.tcc
index b8788a2..7512385 100644
--- a/raftinc/ringbufferheap_abstract.tcc
+++ b/raftinc/ringbufferheap_abstract.tcc
@@ -164,7 +164,7 @@ TOP:
    virtual void get_zero_read_stats( Blocked &copy )
    {
       
-      auto &buff_ptr_stats( (this)->datamanager.get()->read_stats.all );
+      auto &buff_ptr_stats( (this)->consumer_data.read_stats->all );
       
       copy.all          = buff_ptr_stats;;
       buff_ptr_stats    = 0;
@@ -178,14 +178,14 @@ TOP:
     */
    virtual void get_zero_write_stats( Blocked &copy )
    {
-      auto &buff_ptr_stats( (this)->datamanager.get()->write_stats.all );
+      auto &buff_ptr_stats( (this)->producer_data.write_stats->all );
       copy.all       = buff_ptr_stats;
       buff_ptr_stats = 0;
    }
     
     virtual float get_frac_write_blocked()
     {
-        auto &wr_stats( (this)->datamanager.get()->write_stats );
+        auto &wr_stats( *(this)->producer_data.write_stats );
         const auto copy( wr_stats );
         wr_stats.all = 0;
         if( copy.bec.blocked == 0 || copy.bec.count == 0 )
-- 
2.43.0


From 7b5c9d5a3c17bd449ea23b5326d594d7f1d4aef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 08/33] fix: a resize freed the access flags that the producer
 and consumer were still using

---
 raftinc/datamanager.tcc | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/raftinc/datamanager.tcc b/raftinc/datamanager.tcc
index 65f0a91..a2e34be 100644
--- a/raftinc/datamanager.tcc
+++ b/raftinc/datamanager.tcc
@@ -51,12 +51,6 @@ public:
       (this)->buffer = buffer;
       /** check to see if buffer is given is resizeable **/
       resizeable     = (  buffer->external_alloc ? false : true ); 
-      /** 
-       * need to set thread access structs, should be two of them, 
-       * one for producer anad other for the consumer. These are 
-       * kept as an array here so, only one ptr.
-       */
-      thread_access = buffer->thread_access;
    }
 
    inline bool is_resizeable() noexcept 
@@ -229,8 +223,13 @@ private:
 
    bool                  resizeable          = true;
    
-   /** defined in threadaccess.hpp **/
-   ThreadAccess *thread_access = nullptr;
+   /** 
+    * defined in threadaccess.hpp, two of them, one for the producer 
+    * and the other for the consumer. These are kept here and not in 
+    * the buffer since they are still in use while a resize replaces 
+    * and frees the buffer.
+    */
+   ThreadAccess thread_access[ 2 ];
   
    std::atomic< std::uint64_t >  checking_size = { 0 };
 
-- 
2.43.0


From 25b867c44f1ffd5d850bb922795c9ad43ae82afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 09/33] fix: resize relocated class objects bytewise, breaking
 those that hold pointers into themselves

---
 raftinc/bufferdata.tcc | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 3f06f71..162b3ef 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -156,9 +156,25 @@ template < class T > struct Data< T,
         (this)->is_valid = other->is_valid;
 
         /** buffer is already alloc'd, copy **/
-        std::memcpy( (void*)(this)->store /* dst */,
-                     (void*)other->store  /* src */,
-                     other->length_store );
+        if constexpr( std::is_trivially_copyable< T >::value )
+        {
+            std::memcpy( (void*)(this)->store /* dst */,
+                         (void*)other->store  /* src */,
+                         other->length_store );
+        }
+        else
+        {
+            /** 
+             * objects can't be relocated byte by byte, live ones are 
+             * contiguous here, see buffercondition in datamanager.tcc
+             */
+            const auto end( Pointer::val( other->write_pt ) );
+            for( auto i( Pointer::val( other->read_pt ) ); i < end; i++ )
+            {
+                new ( &(this)->store[ i ] ) T( std::move( other->store[ i ] ) );
+                other->store[ i ].~T();
+            }
+        }
         
         /** copy signal buff **/
         std::memcpy( (void*)(this)->signal /* dst */,
-- 
2.43.0


From 3e4e7e796f5880e1c0642523a3bc09af7d9697fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 10/33] fix: peek_range on a stream closing concurrently
 reported leftover data on an empty stream

---
 raftinc/ringbufferheap.tcc | 62 ++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 9ec1c37..ea4d575 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -438,14 +438,20 @@ protected:
             {
                break;
             }
-            else if( (this)->is_invalid() && (this)->size() == 0 )
+            else if( (this)->is_invalid() )
             {
-               throw ClosedPortAccessException(
-                  "Accessing closed port with local_peek_range call, exiting!!" );
-            }
-            else if( (this)->is_invalid() && (this)->size() < n )
-            {
-               throw NoMoreDataException( "Too few items left on closed port, kernel exiting" );
+               /** size is final once closed, decide on a single reading **/
+               const auto remaining( (this)->size() );
+               if( remaining < n )
+               {
+                  (this)->datamanager.exitBuffer( dm::peek );
+                  if( remaining == 0 )
+                  {
+                     throw ClosedPortAccessException(
+                        "Accessing closed port with local_peek_range call, exiting!!" );
+                  }
+                  throw NoMoreDataException( "Too few items left on closed port, kernel exiting" );
+               }
             }
          }
          (this)->datamanager.exitBuffer( dm::peek );
@@ -881,14 +887,20 @@ protected:
             {
                break;
             }
-            else if( (this)->is_invalid() && (this)->size() == 0 )
-            {
-               throw ClosedPortAccessException(
-                  "Accessing closed port with local_peek_range call, exiting!!" );
-            }
-            else if( (this)->is_invalid() && (this)->size() < n )
+            else if( (this)->is_invalid() )
             {
-               throw NoMoreDataException( "Too few items left on closed port, kernel exiting" );
+               /** size is final once closed, decide on a single reading **/
+               const auto remaining( (this)->size() );
+               if( remaining < n )
+               {
+                  (this)->datamanager.exitBuffer( dm::peek );
+                  if( remaining == 0 )
+                  {
+                     throw ClosedPortAccessException(
+                        "Accessing closed port with local_peek_range call, exiting!!" );
+                  }
+                  throw NoMoreDataException( "Too few items left on closed port, kernel exiting" );
+               }
             }
          }
          (this)->datamanager.exitBuffer( dm::peek );
@@ -1367,16 +1379,20 @@ protected:
             {
                break;
             }
-            else if( (this)->is_invalid() && (this)->size() == 0 )
+            else if( (this)->is_invalid() )
             {
-               (this)->datamanager.exitBuffer( dm::peek );
-               throw ClosedPortAccessException(
-                  "Accessing closed port with local_peek_range call, exiting!!" );
-            }
-            else if( (this)->is_invalid() && (this)->size() < n )
-            {
-               (this)->datamanager.exitBuffer( dm::peek );
-               throw NoMoreDataException( "Too few items left on closed port, kernel exiting" );
+               /** size is final once closed, decide on a single reading **/
+               const auto remaining( (this)->size() );
+               if( remaining < n )
+               {
+                  (this)->datamanager.exitBuffer( dm::peek );
+                  if( remaining == 0 )
+                  {
+                     throw ClosedPortAccessException(
+                        "Accessing closed port with local_peek_range call, exiting!!" );
+                  }
+                  throw NoMoreDataException( "Too few items left on closed port, kernel exiting" );
+               }
             }
          }
          (this)->datamanager.exitBuffer( dm::peek );
-- 
2.43.0


From 8a74824bbba86753b38587124abef1baafc2c898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 11/33] fix: a close, or a size query, racing with a resize
 used the freed buffer and lost the close

---
 raftinc/bufferdata.tcc              |  2 ++
 raftinc/ringbufferheap_abstract.tcc | 55 ++++++++++++++++++-----------
 2 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 162b3ef..670c0ff 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -316,6 +316,8 @@ template < class T >
         //copy over block stats objects
         (this)->read_stats  = other->read_stats; 
         (this)->write_stats = other->write_stats;
+        /** since we might use this as a min size, make persistent **/
+        (this)->force_resize = other->force_resize;
         
         (this)->thread_access[ 0 ] = other->thread_access[ 0 ]; 
         (this)->thread_access[ 1 ] = other->thread_access[ 1 ];
diff --git a/raftinc/ringbufferheap_abstract.tcc b/raftinc/ringbufferheap_abstract.tcc
index 7512385..dd73fe1 100644
--- a/raftinc/ringbufferheap_abstract.tcc
+++ b/raftinc/ringbufferheap_abstract.tcc
@@ -113,8 +113,8 @@ TOP:
     */
    virtual void invalidate()
    {
-      auto * const ptr( (this)->datamanager.get() );
-      ptr->is_valid = false;
+      /** the buffer could be in the process of being replaced, see resize **/
+      with_buffer( []( auto &buff ){ buff.is_valid = false; return( true ); } );
       return;
    }
    
@@ -127,8 +127,7 @@ TOP:
     */
    virtual bool is_invalid()
    {
-      auto * const ptr( (this)->datamanager.get() );
-      return( ! ptr->is_valid );
+      return( with_buffer( []( auto &buff ){ return( ! buff.is_valid ); } ) );
    }
 
 
@@ -140,7 +139,9 @@ TOP:
     */
    virtual std::size_t   space_avail()
    {
-      return( (this)->datamanager.get()->max_cap - size() );
+      /** size first, if there's a resize between then capacity only grows **/
+      const auto current_size( size() );
+      return( capacity() - current_size );
    }
   
    /**
@@ -150,7 +151,7 @@ TOP:
     */
    virtual std::size_t   capacity() 
    {
-      return( (this)->datamanager.get()->max_cap );
+      return( with_buffer( []( auto &buff ) -> std::size_t { return( buff.max_cap ); } ) );
    }
 
    
@@ -205,11 +206,33 @@ TOP:
      */
     virtual std::size_t get_suggested_count()
     {
-        return( (this)->datamanager.get()->force_resize );
+        return( with_buffer( []( auto &buff ) -> std::size_t { return( buff.force_resize ); } ) );
     }
    
 
 protected:
+   /**
+    * with_buffer - apply func to the current buffer while 
+    * keeping a resize from replacing (and freeing) it.
+    * @param func - callable that takes a reference to the buffer
+    * @return whatever func returns
+    */
+   template < class F > auto with_buffer( F &&func )
+   {
+      for(;;)
+      {
+         (this)->datamanager.enterBuffer( dm::size );
+         if( (this)->datamanager.notResizing() )
+         {
+            const auto ret_val( func( *(this)->datamanager.get() ) );
+            (this)->datamanager.exitBuffer( dm::size );
+            return( ret_val );
+         }
+         (this)->datamanager.exitBuffer( dm::size );
+         raft::yield();
+      }
+   }
+
    /**
     * setPtrMap
     */
@@ -248,19 +271,11 @@ protected:
     */
    virtual raft::signal signal_peek()
    {
-      /** 
-       * NOTE: normally I'd say we need exclusion here too,
-       * however, since this is a copy and we want this to
-       * be quick since it'll be used quite often in tight
-       * loops I think we'll be okay with getting the current
-       * pointer to the head of the queue and returning the
-       * value.  Logically copying the queue shouldn't effect
-       * this value since the elements all remain in their 
-       * location relative to the start of the queue.
-       */
-      auto * const buff_ptr( (this)->datamanager.get() );
-      const size_t read_index( Pointer::val( buff_ptr->read_pt ) );
-      return( buff_ptr->signal[ read_index ] /* make copy */ ); 
+      /** a resize could free the buffer in between, so guard the read **/
+      return( with_buffer( []( auto &buff ) -> raft::signal 
+         {
+            return( buff.signal[ Pointer::val( buff.read_pt ) ] /* make copy */ ); 
+         } ) );
    }
    /**
     * signal_pop - special function fo rthe scheduler to 
-- 
2.43.0


From 4bbefe23521c14f46f7b33ee8c7ebf64da6e6250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 12/33] fix: pop on an empty stream did not count as blocked
 and kept the stream from being resized

---
 raftinc/ringbufferheap.tcc | 44 ++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index ea4d575..9896cc9 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -340,19 +340,17 @@ protected:
             }
             else if( (this)->is_invalid() && (this)->size() == 0 )
             {
+               (this)->datamanager.exitBuffer( dm::pop );
                throw ClosedPortAccessException(
                   "Accessing closed port with pop call, exiting!!" );
             }
          }
-         else
+         (this)->datamanager.exitBuffer( dm::pop );
+         /** handle stats **/
+         auto &rd_stats( (this)->consumer_data.read_stats->bec.blocked );
+         if( rd_stats == 0 )
          {
-            (this)->datamanager.exitBuffer( dm::pop );
-            /** handle stats **/
-            auto &rd_stats( (this)->consumer_data.read_stats->bec.blocked );
-            if( rd_stats == 0 )
-            {
-               rd_stats  = 1;
-            }
+            rd_stats  = 1;
          }
          raft::yield();
       }
@@ -782,19 +780,17 @@ protected:
             }
             else if( (this)->is_invalid() && (this)->size() == 0 )
             {
+               (this)->datamanager.exitBuffer( dm::pop );
                throw ClosedPortAccessException(
                   "Accessing closed port with pop call, exiting!!" );
             }
          }
-         else
+         (this)->datamanager.exitBuffer( dm::pop );
+         /** handle stats **/
+         auto &rd_stats( (this)->consumer_data.read_stats->bec.blocked );
+         if( rd_stats == 0 )
          {
-            (this)->datamanager.exitBuffer( dm::pop );
-            /** handle stats **/
-            auto &rd_stats( (this)->consumer_data.read_stats->bec.blocked );
-            if( rd_stats == 0 )
-            {
-               rd_stats  = 1;
-            }
+            rd_stats  = 1;
          }
          raft::yield();
       }
@@ -1265,21 +1261,19 @@ protected:
             }
             else if( (this)->is_invalid() && (this)->size() == 0 )
             {
+               (this)->datamanager.exitBuffer( dm::pop );
                throw ClosedPortAccessException(
                   "Accessing closed port with pop call, exiting!!" );
             }
          }
-         else
+         (this)->datamanager.exitBuffer( dm::pop );
+         /** handle stats **/
+         auto &rd_stats( (this)->consumer_data.read_stats->bec.blocked );
+         if( rd_stats == 0 )
          {
-            (this)->datamanager.exitBuffer( dm::pop );
-            /** handle stats **/
-            auto &rd_stats( (this)->consumer_data.read_stats->bec.blocked );
-            if( rd_stats == 0 )
-            {
-               rd_stats  = 1;
-            }
-            raft::yield();
+            rd_stats  = 1;
          }
+         raft::yield();
       }
       auto * const buff_ptr( (this)->datamanager.get() );
       const std::size_t read_index( Pointer::val( buff_ptr->read_pt ) );
-- 
2.43.0


From b1a50d1d609f275a68e5520a6b54de43213ed8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 13/33] fix: streams over an existing array had a single signal
 entry, read past its end

---
 raftinc/bufferdata.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 670c0ff..64de86f 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -63,7 +63,7 @@ template < class T > struct Data< T,
    {
         assert( ptr != nullptr );
         (this)->store  = ptr;
-        (this)->signal = (Signal*)       calloc( 1,
+        (this)->signal = (Signal*)       calloc( max_cap,
                                                  sizeof( Signal ) );
         if( (this)->signal == nullptr )
         {
@@ -224,7 +224,7 @@ template < class T >
    {
         assert( ptr != nullptr );
         (this)->store  = reinterpret_cast< type_t* >( ptr );
-        (this)->signal = (Signal*)       calloc( 1,
+        (this)->signal = (Signal*)       calloc( max_cap,
                                                  sizeof( Signal ) );
         if( (this)->signal == nullptr )
         {
-- 
2.43.0


From cb7b3222b301226b89c42c623804fae2c37a0952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 14/33] fix: operator expressions over chains of more than one
 pair lost edges

A chain of pairs handed as the right operand of <= or >= was linked through its
last pair's source, and the pair returned was the new first one: any further
operator overwrote its successor. a <= b >> c >= d lost the edge b -> c, and
a <= b >> c >> d lost the edge b -> c. Link to the head of the right chain, and
return the last pair of the whole chain as every other operator does.
---
 raftinc/kpair.hpp |  7 +++++++
 src/kpair.cpp     | 48 ++++++++++++++++++++++++++++++-----------------
 2 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/raftinc/kpair.hpp b/raftinc/kpair.hpp
index 2e64b2d..6b43493 100644
--- a/raftinc/kpair.hpp
+++ b/raftinc/kpair.hpp
@@ -108,6 +108,13 @@ public:
     void setOoO() noexcept;
 
 protected:
+    /**
+     * setHead - set the head for this pair and for each pair
+     * that follows it in the chain.
+     * @param h - kpair*, first pair of the chain
+     */
+    void setHead( kpair * const h ) noexcept;
+
     kpair        *next          = nullptr;
     kpair        *head          = nullptr;
     raft::kernel *src           = nullptr;
diff --git a/src/kpair.cpp b/src/kpair.cpp
index 690efa6..4df7753 100644
--- a/src/kpair.cpp
+++ b/src/kpair.cpp
@@ -59,10 +59,10 @@ kpair::kpair( kpair &a,
 kpair::kpair( raft::kernel &a,
               kpair        &n, 
               const bool split,
-              const bool join ) : kpair( a, *(n.src) )
+              const bool join ) : kpair( a, *(n.head->src) )
 {
-    head        = this;
-    next        = &n;
+    next        = n.head;
+    setHead( this );
     split_to    = split;
     join_from   = join;
 }
@@ -76,12 +76,11 @@ kpair::kpair( raft::kernel_wrapper &a,
 kpair::kpair( kpair &a,
               kpair &b, 
               const bool split,
-              const bool join ) : kpair( *(a.dst), *(b.src) )
+              const bool join ) : kpair( *(a.dst), *(b.head->src) )
 {
-    head = a.head;
     a.next = this;
-    b.head = a.head;
-    next = &b;
+    next = b.head;
+    setHead( a.head );
     split_to  = split;
     join_from = join;
 }
@@ -123,6 +122,16 @@ kpair::kpair( raft::kernel_wrapper &a,
 {
 }
 
+void
+kpair::setHead( kpair * const h ) noexcept
+{
+    for( auto *k( this ); k != nullptr; k = k->next )
+    {
+        k->head = h;
+    }
+    return;
+}
+
 void 
 kpair::setOoO() noexcept
 {
@@ -256,15 +265,17 @@ operator <= ( raft::kernel_wrapper &&a, raft::kernel_wrapper &&b )
 kpair&
 operator <= ( raft::kernel &a, kpair &b )
 {
-    auto *ptr( new kpair( a, b, true, false ) );
-    return( *ptr );
+    new kpair( a, b, true, false );
+    /** b is the last pair of the whole chain **/
+    return( b );
 }
 
 kpair&
 operator <= ( raft::kernel_wrapper &&w, kpair &b )
 {
-    auto *ptr( new kpair( w, b, true, false ) );
-    return( *ptr );
+    new kpair( w, b, true, false );
+    /** b is the last pair of the whole chain **/
+    return( b );
 }
 
 
@@ -299,20 +310,23 @@ operator >= ( kpair &a, raft::kernel &b )
 kpair&
 operator >= ( kpair &a, kpair &b )
 {
-    auto *ptr( new kpair( a, b, false, true ) );
-    return(*ptr);
+    new kpair( a, b, false, true );
+    /** b is the last pair of the whole chain **/
+    return( b );
 }
 
 kpair& 
 operator >= ( raft::kernel &a, kpair &b )
 {
-    auto *ptr( new kpair( a, b, false, true ) );
-    return(*ptr);
+    new kpair( a, b, false, true );
+    /** b is the last pair of the whole chain **/
+    return( b );
 }
 
 kpair& 
 operator >= ( raft::kernel_wrapper &&w, kpair &b )
 {
-    auto *ptr( new kpair( w, b, false, true ) );
-    return(*ptr);
+    new kpair( w, b, false, true );
+    /** b is the last pair of the whole chain **/
+    return( b );
 }
-- 
2.43.0


From ba8eb525f3bc39d46aac2c32be519c57fe1c7451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 15/33] fix: duplicated chains before >= skipped kernels and
 returned the wrong source

a >> b >> c >= d cloned only the first pair of the chain for the second and
following inputs of d (the loop jumped to the join itself), so the copies lacked
c. The sources returned named c instead of a for the original chain.
---
 src/map.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/map.cpp b/src/map.cpp
index 6621cc8..ef9a6f8 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -598,6 +598,8 @@ raft::map::inline_dup_join( kernels_t &groups,
     
     /** should currently have only one kernel here **/
     assert( gp->size() == 1 );  
+    /** the source of this chain is the one that starts it **/
+    gp->front() = next->head->src;
 #ifndef NDEBUG
     /** get count to satisfy postcondition at end **/
     const auto dst_inport_count( next->dst->input.count() );
@@ -653,7 +655,7 @@ raft::map::inline_dup_join( kernels_t &groups,
                     head_next->dst = dst;
                     joink( head_next );
                     src = dst;
-                    head_next = next;
+                    head_next = head_next->next;
                 }
                 /** now need to link chain to current join **/
                 //src already alloced
-- 
2.43.0


From 9f65e69c4707cc80a495aacbf5cbb1694bb8ea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 16/33] fix: the join of a nested split grouped its kernels by
 the inner split

a <= ( b <= c >= d ) >= e with more outputs on a than on b put the copies of d
into groups of b's output count: the outer join then read past the end of a
group.
---
 src/map.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/map.cpp b/src/map.cpp
index ef9a6f8..6eb5f8b 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -522,6 +522,11 @@ raft::map::inline_join( split_stack_t &split_stack,
 {
     /** need to get the count **/
     std::size_t count( 0 );
+    /** 
+     * this join ends the innermost split, the kernels it makes
+     * are the group of the split around that one (if any).
+     */
+    split_stack.pop();
     /**
      * for every kernel in each group, join that
      * group's kernels to a single destination and
@@ -553,7 +558,7 @@ raft::map::inline_join( split_stack_t &split_stack,
         if( count <= 0 )
         {
             temp_groups.push_back( up_group_t( new group_t() ) );
-            count = split_stack.top();
+            count = split_stack.empty() ? 1 : split_stack.top();
         }
         if( temp_groups[ 0 ]->size() == 0 )
         {
@@ -577,7 +582,6 @@ raft::map::inline_join( split_stack_t &split_stack,
         }
         count--;
     }
-    split_stack.pop();
 }
 
 
-- 
2.43.0


From 6b59e912ca6b543f6fc3cb54572015e7271610e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 17/33] fix: a rejected link changed the map and the capacity
 of an existing edge

link() stored the requested buffer size in both ports and added both kernels to
the map before the ports and types were checked. A link refused with
PortDoubleInitializeException, PortTypeMismatchException or
PortNotFoundException resized the edge already there, or left an unlinked
kernel in the map so that exe() failed. Ownership of internally created kernels
is still taken first.
---
 raftinc/mapbase.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/raftinc/mapbase.hpp b/raftinc/mapbase.hpp
index afb0864..19cde87 100644
--- a/raftinc/mapbase.hpp
+++ b/raftinc/mapbase.hpp
@@ -85,7 +85,7 @@ public:
                            raft::port_key_type b_port,
                            const std::size_t buffer = 0 )
     {
-        updateKernels( a, b );
+        updateInternal( a, b );
         /**
          * START src port discovery
          */
@@ -107,7 +107,6 @@ public:
         {
             port_info_a =  &a->output.getPortInfoFor( a_port );
         }
-        port_info_a->fixed_buffer_size = buffer;
         /**
          * START dst port discovery
          */
@@ -130,13 +129,16 @@ public:
         {
             port_info_b = &b->input.getPortInfoFor( b_port );
         }
-        port_info_b->fixed_buffer_size = buffer;
         
         assert( port_info_a != nullptr );
         assert( port_info_b != nullptr );
 
         join( *a, a_port, *port_info_a, 
               *b, b_port, *port_info_b );
+        /** the link is valid, nothing is changed by one that isn't **/
+        port_info_a->fixed_buffer_size = buffer;
+        port_info_b->fixed_buffer_size = buffer;
+        updateKernels( a, b );
         
         set_order< t >( *port_info_a, *port_info_b ); 
         return( kernel_pair_t( a, b ) );
@@ -214,6 +216,12 @@ protected:
         }
         all_kernels += a;
         all_kernels += b;
+    }
+
+    template < class A, 
+               class B >
+    void updateInternal( A &a, B &b )
+    {
         /**
          * fix for issue #77, this should be safe to use
          * here given it's issued before any destructors
-- 
2.43.0


From 30285a0761511e0c96170718de8552e48205d7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 18/33] fix: the edge traversal ended at the first unconnected
 port

An unconnected output port queued a null kernel, and the traversal stopped when
it reached it: edges further on were never visited. With connected_error set it
aborted instead of throwing the documented PortException.
---
 src/graphtools.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/graphtools.cpp b/src/graphtools.cpp
index ebec290..f418732 100644
--- a/src/graphtools.cpp
+++ b/src/graphtools.cpp
@@ -121,11 +121,16 @@ GraphTools::__BFS( std::queue< raft::kernel* > &queue,
             PortInfo &dst(
                source.other_kernel->input.getPortInfoFor( source.other_name ) );
             func( source, dst, data );
+            /** if the dst kernel hasn't been visited, visit it **/
+            if( visited_set.find( source.other_kernel ) == visited_set.end() )
+            {
+               queue.push( source.other_kernel );
+               visited_set.insert( source.other_kernel );
+            }
          }
          else
          if( connected_error )
          {
-            assert( false );
             std::stringstream ss;
             ss << "Unconnected port detected at " <<
                common::printClassName( *k ) <<
@@ -134,12 +139,6 @@ GraphTools::__BFS( std::queue< raft::kernel* > &queue,
             k->output.portmap.mutex_map.unlock();
             throw PortException( ss.str() );
          }
-         /** if the dst kernel hasn't been visited, visit it **/
-         if( visited_set.find( source.other_kernel ) == visited_set.end() )
-         {
-            queue.push( source.other_kernel );
-            visited_set.insert( source.other_kernel );
-         }
       }
       k->output.portmap.mutex_map.unlock();
    }
-- 
2.43.0


From a9771b01c9df3e2d4a84ea16ccc4a863f8a469f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 19/33] fix: a kernel over existing memory shared its id with
 the next kernel

The in-place constructor took the count for its id without advancing it, so
makedot drew two kernels as one.
---
 src/kernel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernel.cpp b/src/kernel.cpp
index 64e2010..8a6848a 100644
--- a/src/kernel.cpp
+++ b/src/kernel.cpp
@@ -24,6 +24,7 @@ kernel::kernel( void * const ptr,
    output( this, ptr, nbytes ),
    kernel_id( kernel::kernel_count )
 {
+   kernel::kernel_count++;
 }
 
 
-- 
2.43.0


From 444e36968929b66426d150748ec768e18bb7fa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 20/33] fix: split dropped the items its output had no room for

---
 raftinc/split.tcc       | 7 ++++---
 raftinc/splitmethod.hpp | 8 +++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/raftinc/split.tcc b/raftinc/split.tcc
index bacb365..9577991 100644
--- a/raftinc/split.tcc
+++ b/raftinc/split.tcc
@@ -52,10 +52,11 @@ public:
       const auto avail( output_port.size() );
       auto range( output_port.template peek_range< T >( avail ) );
       /** split funtion selects a fifo using the appropriate split method **/
-      if( split_func.send( range, output ) )
+      const auto sent( split_func.send( range, output ) );
+      if( sent != 0 )
       {
-         /* recycle item */
-         output_port.recycle( avail );
+         /* recycle what was sent, the rest stays for the next call */
+         output_port.recycle( sent );
       }
       else
       {
diff --git a/raftinc/splitmethod.hpp b/raftinc/splitmethod.hpp
index eaf15f1..0e8c0b7 100644
--- a/raftinc/splitmethod.hpp
+++ b/raftinc/splitmethod.hpp
@@ -62,12 +62,14 @@ public:
     * get it working.
     * @param   range - T&, autorelease object
     * @param   outputs - output port list
+    * @return  std::size_t - number of items sent, from the front of the
+    * range, which can be fewer than it holds.
     */
    template < class T   /* peek range obj,  */,
               typename std::enable_if<
                        ! std::is_base_of< autoreleasebase,
                                         T >::value >::type* = nullptr >
-      bool send( T &range, Port &outputs )
+      std::size_t send( T &range, Port &outputs )
    {
       auto * const fifo( select_fifo( outputs, sendtype ) );
       if( fifo != nullptr )
@@ -80,11 +82,11 @@ public:
          {
             fifo->push( range[ i ].ele, range[ i ].sig );
          }
-         return( true );
+         return( space_avail );
       }
       else
       {
-         return( false );
+         return( 0 );
       }
    }
 
-- 
2.43.0


From 95f8f466fcb855f0a16f36334f3eec4b11672524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 21/33] fix: a copy of a print kernel had a single input port

---
 raftinc/print.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raftinc/print.tcc b/raftinc/print.tcc
index a36df07..61003b2 100644
--- a/raftinc/print.tcc
+++ b/raftinc/print.tcc
@@ -40,7 +40,8 @@ template< typename T > class printabstract : public raft::kernel,
 {
 public:
     printabstract( const std::size_t n_input_ports = 1 ) : raft::kernel(),
-                                                           raft::printbase()
+                                                           raft::printbase(),
+                                                           input_port_count( n_input_ports )
     {
         using index_type = std::remove_const_t< decltype( n_input_ports ) >;
         for( index_type index( 0 ); index < n_input_ports; index++ )
@@ -61,7 +62,8 @@ public:
     
     printabstract( std::ostream &stream, 
                    const std::size_t n_input_ports = 1 )  : raft::kernel(),
-                                                            raft::printbase()
+                                                            raft::printbase(),
+                                                            input_port_count( n_input_ports )
     {
         using index_type = std::remove_const_t< decltype( n_input_ports ) >;
         for( index_type index( 0 ); index < n_input_ports; index++ )
-- 
2.43.0


From 710e87326ad57676a26995a7588d3281efb5f703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 22/33] fix: search added the position of the chunk twice

---
 raftinc/search.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raftinc/search.tcc b/raftinc/search.tcc
index 80f000b..8345501 100644
--- a/raftinc/search.tcc
+++ b/raftinc/search.tcc
@@ -65,7 +65,8 @@ public:
                            term.begin(), term.end() );
          if( it != chunk.end() )
          {
-            const std::size_t loc( it.location() + chunk.start_position );
+            /** location() is relative to the start of the file **/
+            const std::size_t loc( it.location() );
             const std::size_t end( loc + term_length );
             output[ "0" ].push( std::make_pair( loc, end ) );
             it += 1;
-- 
2.43.0


From d286349197bb33874581bf99acf31ffac7acf26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 23/33] fix: a copy of a file chunk lost its index

---
 raftinc/filechunk.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raftinc/filechunk.tcc b/raftinc/filechunk.tcc
index dcca9a1..f5713c6 100644
--- a/raftinc/filechunk.tcc
+++ b/raftinc/filechunk.tcc
@@ -36,6 +36,7 @@ template < std::size_t size = 65536 > struct filechunk
       std::memcpy( buffer, other.buffer, other.length + 1 /** cp null term **/ );
       start_position = other.start_position;
       length = other.length;
+      index  = other.index;
    }
    
    constexpr filechunk< size >& operator = ( const filechunk< size > &other )
@@ -45,6 +46,7 @@ template < std::size_t size = 65536 > struct filechunk
         std::memcpy( buffer, other.buffer, other.length + 1 /** cp null term **/ );
         start_position = other.start_position;
         length = other.length;
+        index  = other.index;
         return( *this );
    }
 #pragma pack( push, 1 )
-- 
2.43.0


From c4367297ffbce8b2b9f780723bb8bbd8472377ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 24/33] fix: filereader with overlapping chunks missed the end
 of the file, its eof signal the last chunk

---
 raftinc/fileio.tcc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/raftinc/fileio.tcc b/raftinc/fileio.tcc
index a1517a1..52604f6 100644
--- a/raftinc/fileio.tcc
+++ b/raftinc/fileio.tcc
@@ -83,13 +83,17 @@ public:
 
       /** get length in bytes **/
       length = st.st_size;
-      if(chunk_offset !=  0 )
+      /** 
+       * the first chunk, then as many as it takes for the rest given 
+       * that each one starts chunk_offset bytes before the end of the 
+       * one before.
+       */
+      const std::streamsize chunk_length( chunktype::getChunkSize() - 1 );
+      iterations = 1;
+      if( length > chunk_length )
       {
-        iterations = std::ceil( (float) length / (float) ( (chunktype::getChunkSize() - 1) - (chunk_offset - 1) ) );
-      }
-      else
-      {
-        iterations = std::ceil( (float) length / (float)( chunktype::getChunkSize() - 1 ) );
+        const std::streamsize step( chunk_length - chunk_offset );
+        iterations += ( length - chunk_length + step - 1 ) / step;
       }
    }
 
@@ -117,12 +121,12 @@ public:
             chunk.buffer[ num_read ] = '\0';
             chunk.length = num_read;
             port.send(
-               ( iterations - output.count() /* num ports */ ) > 0 ?
+               ( iterations - (std::int64_t) output.count() /* num ports */ ) > 0 ?
                   raft::none :
                   raft::eof );
             static_assert( std::is_signed< decltype( iterations ) >::value,
                            "iterations must be a signed type" );
-            if( --iterations < 0 )
+            if( --iterations <= 0 )
             {
                return( raft::stop );
             }
-- 
2.43.0


From ef11780684284a0f4cce7bd9e4b103286968707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 25/33] fix: filereader never closed its file

---
 raftinc/fileio.tcc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/raftinc/fileio.tcc b/raftinc/fileio.tcc
index 52604f6..a55f9ed 100644
--- a/raftinc/fileio.tcc
+++ b/raftinc/fileio.tcc
@@ -97,6 +97,11 @@ public:
       }
    }
 
+   virtual ~filereader()
+   {
+      std::fclose( fp );
+   }
+
    virtual raft::kstatus run()
    {
       for( auto &port : output )
-- 
2.43.0


From 30dbb05b5cf6d74e5a45b69a09695c5b9e7caf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 26/33] fix: taking a system signal off a stream aborted

---
 raftinc/ringbufferheap.tcc | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 9896cc9..2220734 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -360,10 +360,12 @@ protected:
       {
          *signal = buff_ptr->signal[ read_index ];
       }
-      assert( ptr != nullptr );
-      /** gotta dereference pointer and copy **/
-      T *item( reinterpret_cast< T* >( ptr ) );
-      *item = buff_ptr->store[ read_index ];
+      /** gotta dereference pointer and copy, nullptr == throw away **/
+      if( ptr != nullptr )
+      {
+         T *item( reinterpret_cast< T* >( ptr ) );
+         *item = buff_ptr->store[ read_index ];
+      }
       /** only increment here b/c we're actually reading an item **/
       (this)->consumer_data.read_stats->bec.count++;
       Pointer::inc( buff_ptr->read_pt );
@@ -800,10 +802,12 @@ protected:
       {
          *signal = buff_ptr->signal[ read_index ];
       }
-      assert( ptr != nullptr );
-      /** gotta dereference pointer and copy **/
-      T *item( reinterpret_cast< T* >( ptr ) );
-      *item = buff_ptr->store[ read_index ];
+      /** gotta dereference pointer and copy, nullptr == throw away **/
+      if( ptr != nullptr )
+      {
+         T *item( reinterpret_cast< T* >( ptr ) );
+         *item = buff_ptr->store[ read_index ];
+      }
       /** 
        * we know the object is inline constructed, 
        * we should inline destruct it to fix bug
@@ -1281,11 +1285,13 @@ protected:
       {
          *signal = buff_ptr->signal[ read_index ];
       }
-      assert( ptr != nullptr );
-      /** gotta dereference pointer and copy **/
-      T *item( reinterpret_cast< T* >( ptr ) );
       auto *head( reinterpret_cast< T* >( buff_ptr->store[ read_index ] ) );
-      *item = *head;
+      /** gotta dereference pointer and copy, nullptr == throw away **/
+      if( ptr != nullptr )
+      {
+         T *item( reinterpret_cast< T* >( ptr ) );
+         *item = *head;
+      }
       /** only increment here b/c we're actually reading an item **/
       (this)->consumer_data.read_stats->bec.count++;
       Pointer::inc( buff_ptr->read_pt );
-- 
2.43.0


From 7239dba696b18102abdcb6a5e46ba7f1619ccb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 27/33] fix: kernel threads started before their core
 assignment was set

---
 raftinc/simpleschedule.hpp | 12 ++++++++----
 src/simpleschedule.cpp     |  5 +++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/raftinc/simpleschedule.hpp b/raftinc/simpleschedule.hpp
index a0171d8..fa42547 100644
--- a/raftinc/simpleschedule.hpp
+++ b/raftinc/simpleschedule.hpp
@@ -46,8 +46,10 @@ protected:
    struct thread_data
    {
       constexpr thread_data( raft::kernel * const k,
-                             bool *fin ) : k( k ),
-                                           finished( fin ){}
+                             bool *fin,
+                             const core_id_t loc ) : k( k ),
+                                                     finished( fin ),
+                                                     loc( loc ){}
 
       raft::kernel *k         = nullptr;
       bool         *finished  = nullptr;
@@ -56,8 +58,10 @@ protected:
    
    struct thread_info_t
    {
-      thread_info_t( raft::kernel * const kernel ) : data( kernel, 
-                                                           &finished ),
+      thread_info_t( raft::kernel * const kernel,
+                     const core_id_t      loc ) : data( kernel, 
+                                                           &finished,
+                                                           loc ),
                                      th( simple_run,
                                          reinterpret_cast< void* >( &data ) )
       {
diff --git a/src/simpleschedule.cpp b/src/simpleschedule.cpp
index c26d164..1454111 100644
--- a/src/simpleschedule.cpp
+++ b/src/simpleschedule.cpp
@@ -123,8 +123,9 @@ simple_schedule::handleSchedule( raft::kernel * const kernel )
       /** 
        * TODO: lets add the affinity dynamically here
        */
-      auto * const th_info( new thread_info_t( kernel ) );
-      th_info->data.loc = kernel->getCoreAssignment();
+      /** thread starts right here, core assignment is set before it does **/
+      auto * const th_info( new thread_info_t( kernel, 
+                                                kernel->getCoreAssignment() ) );
 
       /** 
        * thread function takes a reference back to the scheduler
-- 
2.43.0


From aaf147fcc8206234530542b321c15826fbe39d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:52 +0000
Subject: [PATCH 28/33] fix: kernels created by several threads at once could
 get the same id

---
 raftinc/kernel.hpp | 2 +-
 src/kernel.cpp     | 8 +++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/raftinc/kernel.hpp b/raftinc/kernel.hpp
index dfd2950..c64c235 100644
--- a/raftinc/kernel.hpp
+++ b/raftinc/kernel.hpp
@@ -217,7 +217,7 @@ protected:
      * compute kernels, for multi-process, this is used in 
      * conjunction with process identifier.
      */
-    static std::size_t kernel_count;
+    static std::atomic< std::size_t > kernel_count;
     
 #ifdef BENCHMARK
     static std::atomic< std::size_t > initialized_count;
diff --git a/src/kernel.cpp b/src/kernel.cpp
index 8a6848a..9fc3f6c 100644
--- a/src/kernel.cpp
+++ b/src/kernel.cpp
@@ -5,16 +5,15 @@
 
 using namespace raft;
 
-std::size_t kernel::kernel_count( 0 );
+std::atomic< std::size_t > kernel::kernel_count( 0 );
 
 #ifdef BENCHMARK
     std::atomic< std::size_t > kernel::initialized_count( 0 );
 #endif
 
 /** default **/
-kernel::kernel() : kernel_id( kernel::kernel_count )
+kernel::kernel() : kernel_id( kernel::kernel_count++ )
 {
-   kernel::kernel_count++;
 }
 
 /** existing memory **/
@@ -22,9 +21,8 @@ kernel::kernel( void * const ptr,
                 const std::size_t nbytes ) :
    input(  this, ptr, nbytes ),
    output( this, ptr, nbytes ),
-   kernel_id( kernel::kernel_count )
+   kernel_id( kernel::kernel_count++ )
 {
-   kernel::kernel_count++;
 }
 
 
-- 
2.43.0


From e53ee4d0e7f420539b82407eaf41cc2d790d9233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 29/33] fix: address of a popped element stayed marked as
 peeked at until the end of the run

---
 raftinc/ringbufferheap.tcc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 2220734..d1f0e69 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -1295,6 +1295,15 @@ protected:
       /** only increment here b/c we're actually reading an item **/
       (this)->consumer_data.read_stats->bec.count++;
       Pointer::inc( buff_ptr->read_pt );
+      /**
+       * head is deleted here, if it was peeked at before then its
+       * address could be handed out again during the same run.
+       */
+      if( (this)->consumer_data.in_peek != nullptr )
+      {
+         (this)->consumer_data.in_peek->erase(
+            reinterpret_cast< ptr_t >( head ) );
+      }
       /**
        * fix for bug #76 - jcb 18Nov2018
        */
-- 
2.43.0


From b76fec5f774dabd696a4ca6de4990e20d1fbae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:05 +0000
Subject: [PATCH 30/33] fix: raft::range wrote one number past the end of its
 result

---
 raftinc/utility.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/raftinc/utility.hpp b/raftinc/utility.hpp
index 20eb7d5..d37a6d9 100644
--- a/raftinc/utility.hpp
+++ b/raftinc/utility.hpp
@@ -65,11 +65,11 @@ range( const A a,
   {
      const auto cap( (b - a + delta) / delta );
      common_v_t< A, B > out( cap );
-     auto index( 0 );
-     for( common_t< A, B > i( a ); 
-      std::islessequal( i, b + delta ); i += delta, index++ )
+     common_t< A, B > i( a );
+     for( auto &val : out )
      {
-        out[ index ] = i;
+        val = i;
+        i  += delta;
      }
      return( std::move( out ) );
   }
@@ -77,11 +77,11 @@ range( const A a,
   {
      const auto cap( (a - b + delta ) / delta );
      common_v_t< A, B > out( cap );
-     auto index( 0 );
-     for( common_t< A, B > i( a ); 
-      std::isgreaterequal( i, b - delta ); i -= delta, index++ )
+     common_t< A, B > i( a );
+     for( auto &val : out )
      {
-        out[ index ] = i;
+        val = i;
+        i  -= delta;
      }
      return( std::move( out ) );
   }
-- 
2.43.0


From fea0bf434d0b24697e9d971444f990d8170e0a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:26 +0000
Subject: [PATCH 31/33] fix: an expression the map refused leaked its pairs and
 the kernels made for it

---
 src/map.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/map.cpp b/src/map.cpp
index 6eb5f8b..ce20c56 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -282,8 +282,17 @@ raft::map::operator += ( kpair &p )
      */
     groups.back()->emplace_back( next->src );
 
-    /** hold on to these for a bit so we can back track if needed **/
-    std::vector< kpair* > kpair_store;
+    /** 
+     * hold on to these for a bit so we can back track if needed,
+     * they and the kernels made for them are ours from here on, even 
+     * if one of the links turns out to be invalid.
+     */
+    std::vector< std::unique_ptr< kpair > > kpair_store;
+    for( auto *k( next ); k != nullptr; k = k->next )
+    {
+        kpair_store.emplace_back( k );
+        updateInternal( k->src, k->dst );
+    }
 
     /** loop over chain **/
     while( next != nullptr )
@@ -362,9 +371,7 @@ raft::map::operator += ( kpair &p )
         /** now old dst (in temp_groups) become new sources **/
         groups = std::move( temp_groups );
         
-        kpair * const temp_kpair = next;
         next = next->next;
-        kpair_store.emplace_back( temp_kpair );
     }
     
     /** 
@@ -383,13 +390,6 @@ raft::map::operator += ( kpair &p )
             ret_kernel_pair.addDst( *kernel );
         }
     }
-    
-    
-    
-    for( auto *ptr : kpair_store )
-    {
-        delete( ptr );
-    }
 
     /**
      * TODO, need to get the kernel_pair_t to 
-- 
2.43.0


From 923398d974ce7170b152264b2c7c63c30d843e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:18 +0000
Subject: [PATCH 32/33] fix: ranges of large numbers or in large steps had the
 wrong length

---
 raftinc/utility.hpp | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/raftinc/utility.hpp b/raftinc/utility.hpp
index d37a6d9..accbb9f 100644
--- a/raftinc/utility.hpp
+++ b/raftinc/utility.hpp
@@ -37,6 +37,34 @@ template < typename A,
 template < typename A, 
            typename B > using common_v_t = std::vector< common_t< A, B > >;
 
+/**
+ * range_size - how many numbers there are from low to high, both
+ * inclusive, in steps of delta. The distance of two integers always fits 
+ * the unsigned type, which isn't the case for the signed one.
+ */
+template < typename T,
+           typename std::enable_if< std::is_integral< T >::value >::type* = nullptr >
+static
+constexpr
+std::size_t
+range_size( const T low, const T high, const T delta )
+{
+   using u_t = typename std::make_unsigned< T >::type;
+   return( static_cast< std::size_t >( 
+      static_cast< u_t >( static_cast< u_t >( high ) - static_cast< u_t >( low ) ) / 
+      static_cast< u_t >( delta ) ) + 1 );
+}
+
+template < typename T,
+           typename std::enable_if< ! std::is_integral< T >::value >::type* = nullptr >
+static
+constexpr
+std::size_t
+range_size( const T low, const T high, const T delta )
+{
+   return( static_cast< std::size_t >( ( high - low + delta ) / delta ) );
+}
+
 /** 
  * irange - simple utility that returns a vector of 
  * integers with the common type of A & B, useful for
@@ -61,27 +89,28 @@ range( const A a,
        const B b, 
        const common_t< A, B > delta = 1 )
 {
-  if( std::isless( a, b ) )
+  /** a double can't tell all integers apart **/
+  if( static_cast< long double >( a ) < static_cast< long double >( b ) )
   {
-     const auto cap( (b - a + delta) / delta );
+     const auto cap( range_size< common_t< A, B > >( a, b, delta ) );
      common_v_t< A, B > out( cap );
      common_t< A, B > i( a );
      for( auto &val : out )
      {
         val = i;
-        i  += delta;
+        if( &val != &out.back() ) i += delta;
      }
      return( std::move( out ) );
   }
   else
   {
-     const auto cap( (a - b + delta ) / delta );
+     const auto cap( range_size< common_t< A, B > >( b, a, delta ) );
      common_v_t< A, B > out( cap );
      common_t< A, B > i( a );
      for( auto &val : out )
      {
         val = i;
-        i  -= delta;
+        if( &val != &out.back() ) i -= delta;
      }
      return( std::move( out ) );
   }
-- 
2.43.0


From 1bcf7b3d01e4676ca065e0ea3839155b2dbe8a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:26 +0000
Subject: [PATCH 33/33] fix: a source named twice in a list was traversed twice

---
 src/graphtools.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/graphtools.cpp b/src/graphtools.cpp
index f418732..039caeb 100644
--- a/src/graphtools.cpp
+++ b/src/graphtools.cpp
@@ -64,8 +64,11 @@ GraphTools::BFS( std::vector< raft::kernel* > &source_kernels,
                   source_kernels.end(),
                   [&]( raft::kernel *k )
                   {
-                     queue.push( k );
-                     visited_set.insert( k );
+                     /** the list might have a kernel more than once **/
+                     if( visited_set.insert( k ).second )
+                     {
+                        queue.push( k );
+                     }
                   } );
    GraphTools::__BFS( queue, visited_set, func, data, connected_error );
 }
-- 
2.43.0

