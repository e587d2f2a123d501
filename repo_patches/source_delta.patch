From bb375bd6b6074ab28cd9002e77bf7a72dd3aa5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 01/40] fix: withdraw the buffer access before a blocking read
 throws

pop, peek and peek_range left the access flag set when they reported a
closed port, so that a resize of the buffer could never proceed again.
---
 raftinc/ringbufferheap.tcc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 461d3cc..a5a5891 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -338,6 +338,7 @@ protected:
             }
             else if( (this)->is_invalid() && (this)->size() == 0 )
             {
+               (this)->datamanager.exitBuffer( dm::pop );
                throw ClosedPortAccessException(
                   "Accessing closed port with pop call, exiting!!" );
             }
@@ -392,6 +393,7 @@ protected:
             }
             else if( (this)->is_invalid() && (this)->size() == 0 )
             {
+               (this)->datamanager.exitBuffer( dm::peek );
                throw ClosedPortAccessException(
                   "Accessing closed port with local_peek call, exiting!!" );
             }
@@ -438,11 +440,13 @@ protected:
             }
             else if( (this)->is_invalid() && (this)->size() == 0 )
             {
+               (this)->datamanager.exitBuffer( dm::peek );
                throw ClosedPortAccessException(
                   "Accessing closed port with local_peek_range call, exiting!!" );
             }
             else if( (this)->is_invalid() && (this)->size() < n )
             {
+               (this)->datamanager.exitBuffer( dm::peek );
                throw NoMoreDataException( "Too few items left on closed port, kernel exiting" );
             }
          }
@@ -771,6 +775,7 @@ protected:
             }
             else if( (this)->is_invalid() && (this)->size() == 0 )
             {
+               (this)->datamanager.exitBuffer( dm::pop );
                throw ClosedPortAccessException(
                   "Accessing closed port with pop call, exiting!!" );
             }
@@ -832,6 +837,7 @@ protected:
             }
             else if( (this)->is_invalid() && (this)->size() == 0 )
             {
+               (this)->datamanager.exitBuffer( dm::peek );
                throw ClosedPortAccessException(
                   "Accessing closed port with local_peek call, exiting!!" );
             }
@@ -878,11 +884,13 @@ protected:
             }
             else if( (this)->is_invalid() && (this)->size() == 0 )
             {
+               (this)->datamanager.exitBuffer( dm::peek );
                throw ClosedPortAccessException(
                   "Accessing closed port with local_peek_range call, exiting!!" );
             }
             else if( (this)->is_invalid() && (this)->size() < n )
             {
+               (this)->datamanager.exitBuffer( dm::peek );
                throw NoMoreDataException( "Too few items left on closed port, kernel exiting" );
             }
          }
@@ -1245,6 +1253,7 @@ protected:
             }
             else if( (this)->is_invalid() && (this)->size() == 0 )
             {
+               (this)->datamanager.exitBuffer( dm::pop );
                throw ClosedPortAccessException(
                   "Accessing closed port with pop call, exiting!!" );
             }
@@ -1304,6 +1313,7 @@ protected:
             }
             else if( (this)->is_invalid() && (this)->size() == 0 )
             {
+               (this)->datamanager.exitBuffer( dm::peek );
                throw ClosedPortAccessException(
                   "Accessing closed port with local_peek call, exiting!!" );
             }
-- 
2.43.0


From 6779a7107f71f8575e80dc03b91fac63cc41666e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 02/40] fix: withdraw the buffer access while pop waits for
 data

A reader waiting on an empty stream kept its access flag set for the
whole wait, including the yield.
---
 raftinc/ringbufferheap.tcc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index a5a5891..10940b1 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -342,6 +342,7 @@ protected:
                throw ClosedPortAccessException(
                   "Accessing closed port with pop call, exiting!!" );
             }
+            (this)->datamanager.exitBuffer( dm::pop );
          }
          else
          {
@@ -779,6 +780,7 @@ protected:
                throw ClosedPortAccessException(
                   "Accessing closed port with pop call, exiting!!" );
             }
+            (this)->datamanager.exitBuffer( dm::pop );
          }
          else
          {
@@ -1257,6 +1259,7 @@ protected:
                throw ClosedPortAccessException(
                   "Accessing closed port with pop call, exiting!!" );
             }
+            (this)->datamanager.exitBuffer( dm::pop );
          }
          else
          {
-- 
2.43.0


From a93af8d4c7249187b70f71cab34cabb4439c67d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 03/40] fix: free out-of-line elements that are popped

Only the destructor was called, the memory allocated by push leaked.
---
 raftinc/ringbufferheap.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 10940b1..5c348e5 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -1290,7 +1290,7 @@ protected:
       /**
        * fix for bug #76 - jcb 18Nov2018
        */
-      head->~T();
+      delete( head );
       (this)->datamanager.exitBuffer( dm::pop );
    }
 
-- 
2.43.0


From 63a4826de7355ca39a60e81d738ac154edc7871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 04/40] fix: deallocate destroys the reserved element

The in-place class version destroyed the element at the read position,
which belongs to the reader, instead of the one just allocated.
---
 raftinc/ringbufferheap.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 5c348e5..8ca7439 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -498,8 +498,8 @@ public:
    virtual void deallocate()
    {
       auto * const buff_ptr( (this)->datamanager.get() );
-      const auto read_index( Pointer::val( buff_ptr->read_pt ) );
-      auto * const ptr = reinterpret_cast< T* >( &( buff_ptr->store[ read_index ] ) );
+      const auto write_index( Pointer::val( buff_ptr->write_pt ) );
+      auto * const ptr = reinterpret_cast< T* >( &( buff_ptr->store[ write_index ] ) );
       /** destruct **/
       ptr->~T();
       (this)->producer_data.allocate_called = false;
-- 
2.43.0


From c3dc79e3471921633cdfec3d67b127658b9f5151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 05/40] fix: pop without a destination drops the element

local_pop( nullptr, .. ) is documented to throw the item away, and
signal_pop relies on it, but the null pointer was dereferenced.
---
 raftinc/ringbufferheap.tcc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 8ca7439..a2d5a4f 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -362,10 +362,12 @@ protected:
       {
          *signal = buff_ptr->signal[ read_index ];
       }
-      assert( ptr != nullptr );
       /** gotta dereference pointer and copy **/
-      T *item( reinterpret_cast< T* >( ptr ) );
-      *item = buff_ptr->store[ read_index ];
+      if( ptr != nullptr )
+      {
+         T *item( reinterpret_cast< T* >( ptr ) );
+         *item = buff_ptr->store[ read_index ];
+      }
       /** only increment here b/c we're actually reading an item **/
       (this)->consumer_data.read_stats->bec.count++;
       Pointer::inc( buff_ptr->read_pt );
@@ -800,10 +802,12 @@ protected:
       {
          *signal = buff_ptr->signal[ read_index ];
       }
-      assert( ptr != nullptr );
       /** gotta dereference pointer and copy **/
-      T *item( reinterpret_cast< T* >( ptr ) );
-      *item = buff_ptr->store[ read_index ];
+      if( ptr != nullptr )
+      {
+         T *item( reinterpret_cast< T* >( ptr ) );
+         *item = buff_ptr->store[ read_index ];
+      }
       /** 
        * we know the object is inline constructed, 
        * we should inline destruct it to fix bug
@@ -1279,11 +1283,13 @@ protected:
       {
          *signal = buff_ptr->signal[ read_index ];
       }
-      assert( ptr != nullptr );
       /** gotta dereference pointer and copy **/
-      T *item( reinterpret_cast< T* >( ptr ) );
       auto *head( reinterpret_cast< T* >( buff_ptr->store[ read_index ] ) );
-      *item = *head;
+      if( ptr != nullptr )
+      {
+         T *item( reinterpret_cast< T* >( ptr ) );
+         *item = *head;
+      }
       /** only increment here b/c we're actually reading an item **/
       (this)->consumer_data.read_stats->bec.count++;
       Pointer::inc( buff_ptr->read_pt );
-- 
2.43.0


From 3d4b5ba0722e7c3879253c566a097f9a9aba7869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 06/40] fix: allocate_range of out-of-line elements records its
 length

send_range published n_allocated elements, which was never set.
---
 raftinc/ringbufferheap.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index a2d5a4f..1ca67c9 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -1159,6 +1159,8 @@ protected:
          buff_ptr->signal[ write_index ] = raft::none;
          write_index = ( write_index + 1 ) % buff_ptr->max_cap;
       }
+      (this)->producer_data.n_allocated = 
+        static_cast< decltype( (this)->producer_data.n_allocated ) >( n );
       (this)->producer_data.allocate_called = true;
       /** exitBuffer() called by push_range **/
    }
-- 
2.43.0


From ad2277c5f86685e181abf7d3e809e02707d0652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 07/40] fix: send_range attaches its signal to the last element

The signal was stored with the first element of the range, so that an
end-of-file arrived before the data it belongs to.
---
 raftinc/ringbufferheap.tcc | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 1ca67c9..34ba82e 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -92,10 +92,15 @@ public:
         return;
       }
       /** should be the end of the write, regardless of which allocate called **/
-      const size_t write_index( Pointer::val( (this)->datamanager.get()->write_pt ) );
-      (this)->datamanager.get()->signal[ write_index ] = signal;
-      /* only need to inc one more **/
+      auto * const buff_ptr( (this)->datamanager.get() );
       auto &n_allocated( (this)->producer_data.n_allocated );
+      if( n_allocated != 0 )
+      {
+         /** the signal goes with the last item of the range **/
+         const size_t write_index( ( Pointer::val( buff_ptr->write_pt ) + 
+                                     n_allocated - 1 ) % buff_ptr->max_cap );
+         buff_ptr->signal[ write_index ] = signal;
+      }
       Pointer::incBy( (this)->datamanager.get()->write_pt,
                       n_allocated );
       (this)->producer_data.write_stats->bec.count += n_allocated;
@@ -544,10 +549,14 @@ public:
         }
         auto * const buff_ptr( (this)->datamanager.get() );
         /** should be the end of the write, regardless of which allocate called **/
-        const size_t write_index( Pointer::val( buff_ptr->write_pt ) );
-        buff_ptr->signal[ write_index ] = signal;
-        /* only need to inc one more, the rest have already**/
         auto &n_allocated( (this)->producer_data.n_allocated );
+        if( n_allocated != 0 )
+        {
+            /** the signal goes with the last item of the range **/
+            const size_t write_index( ( Pointer::val( buff_ptr->write_pt ) + 
+                                        n_allocated - 1 ) % buff_ptr->max_cap );
+            buff_ptr->signal[ write_index ] = signal;
+        }
         Pointer::incBy( buff_ptr->write_pt,
                         n_allocated );
         
@@ -994,9 +1003,15 @@ public:
    {
       if( ! (this)->producer_data.allocate_called ) return;
       /** should be the end of the write, regardless of which allocate called **/
-      const size_t write_index( Pointer::val( (this)->datamanager.get()->write_pt ) );
-      (this)->datamanager.get()->signal[ write_index ] = signal;
+      auto * const buff_ptr( (this)->datamanager.get() );
       auto &n_allocated( (this)->producer_data.n_allocated );
+      if( n_allocated != 0 )
+      {
+         /** the signal goes with the last item of the range **/
+         const size_t write_index( ( Pointer::val( buff_ptr->write_pt ) + 
+                                     n_allocated - 1 ) % buff_ptr->max_cap );
+         buff_ptr->signal[ write_index ] = signal;
+      }
       Pointer::incBy( (this)->datamanager.get()->write_pt,
                       n_allocated );
       /** cleanup **/
-- 
2.43.0


From 18a140dcb622c23d1fe12dd07f00f75ecba8ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 08/40] fix: peek_range pairs each element with its own signal

The range handle adds the read position to its signal pointer, which
already pointed to the read position.
---
 raftinc/ringbufferheap.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 34ba82e..e040136 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -477,7 +477,7 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const std::size_t cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      *sig =  reinterpret_cast< void* >(  buff_ptr->signal );
       *ptr =  buff_ptr->store;
       return;
    }
@@ -928,7 +928,7 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const auto cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      *sig =  reinterpret_cast< void* >(  buff_ptr->signal );
       *ptr =  buff_ptr->store;
       return;
    }
@@ -1426,7 +1426,7 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const auto cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      *sig =  reinterpret_cast< void* >(  buff_ptr->signal );
       *ptr =  buff_ptr->store;
       return;
    }
-- 
2.43.0


From 2cd3635f0ecb39ec73cd4fc5c8f75b60744eb7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 09/40] fix: give buffers on user memory one signal per slot

Only a single signal was allocated although every slot's is accessed.
---
 raftinc/bufferdata.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 3f06f71..a6c7a25 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -63,7 +63,7 @@ template < class T > struct Data< T,
    {
         assert( ptr != nullptr );
         (this)->store  = ptr;
-        (this)->signal = (Signal*)       calloc( 1,
+        (this)->signal = (Signal*)       calloc( (this)->max_cap,
                                                  sizeof( Signal ) );
         if( (this)->signal == nullptr )
         {
@@ -208,7 +208,7 @@ template < class T >
    {
         assert( ptr != nullptr );
         (this)->store  = reinterpret_cast< type_t* >( ptr );
-        (this)->signal = (Signal*)       calloc( 1,
+        (this)->signal = (Signal*)       calloc( (this)->max_cap,
                                                  sizeof( Signal ) );
         if( (this)->signal == nullptr )
         {
-- 
2.43.0


From 07dc9fcf732c4e1ac501415498605573106fd37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 10/40] fix: size of the signal array when a buffer is resized

The size of the elements was used, copying too much or too little.
---
 raftinc/database.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raftinc/database.tcc b/raftinc/database.tcc
index cf0a446..5bbbdfe 100644
--- a/raftinc/database.tcc
+++ b/raftinc/database.tcc
@@ -43,7 +43,7 @@ template < class T > struct DataBase
 {
     DataBase( const std::size_t max_cap ) : max_cap ( max_cap ),
                                             length_store( sizeof( T ) * max_cap ),
-                                            length_signal( sizeof( T ) * max_cap ),
+                                            length_signal( sizeof( Signal ) * max_cap ),
                                             dynamic_alloc_size( length_store +
                                                                 length_signal )
                                             {}
-- 
2.43.0


From 961e3907c70fbfba2d785689cd3e0e1307e9ed44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 11/40] fix: keep the requested minimum size of out-of-line
 buffers on resize

---
 raftinc/bufferdata.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index a6c7a25..94ebe7b 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -300,6 +300,8 @@ template < class T >
         //copy over block stats objects
         (this)->read_stats  = other->read_stats; 
         (this)->write_stats = other->write_stats;
+        /** since we might use this as a min size, make persistent **/
+        (this)->force_resize = other->force_resize;
         
         (this)->thread_access[ 0 ] = other->thread_access[ 0 ]; 
         (this)->thread_access[ 1 ] = other->thread_access[ 1 ];
-- 
2.43.0


From f712c1e325be797dbab6b3fb5e105793e128cbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 12/40] fix: copying a signal copies its index

---
 src/signal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/signal.cpp b/src/signal.cpp
index e996409..61b0842 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -29,6 +29,7 @@ Signal::Signal()
 Signal::Signal( const Signal &other )
 {
    (this)->sig = other.sig;
+   (this)->index = other.index;
 }
 
 Signal& 
-- 
2.43.0


From 041657ca16e0ec9d1634d6b616f353a5d49a38d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 13/40] fix: a copied allocation handle keeps its signal

The signal set on the handle was lost when it was handed on.
---
 raftinc/autorelease.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raftinc/autorelease.tcc b/raftinc/autorelease.tcc
index 1584b2e..d8b3c2d 100644
--- a/raftinc/autorelease.tcc
+++ b/raftinc/autorelease.tcc
@@ -198,6 +198,7 @@ public:
 
    autorelease( const autorelease< T, allocatetype > &other ) : 
       item( other.item ), 
+      signal( other.signal ),
       fifo( other.fifo )
    {
       const_cast< autorelease< T, allocatetype >& >( other ).copied = true;
-- 
2.43.0


From d32e98104d4200f6e274f24f6946f3bd406dc82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:37 +0000
Subject: [PATCH 14/40] fix: buffer statistics survive a resize

The streams kept pointers to the counters inside the buffer they were
constructed with, which a resize deletes.
---
 raftinc/fifoabstract.tcc            | 14 ++++++++++----
 raftinc/ringbufferheap_abstract.tcc |  6 +++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/raftinc/fifoabstract.tcc b/raftinc/fifoabstract.tcc
index 7423514..7eef31f 100644
--- a/raftinc/fifoabstract.tcc
+++ b/raftinc/fifoabstract.tcc
@@ -39,10 +39,9 @@ protected:
 
     inline void init() noexcept
     {
-        auto * const buffer( datamanager.get() );
-        assert( buffer != nullptr );
-        producer_data.write_stats = &buffer->write_stats;
-        consumer_data.read_stats  = &buffer->read_stats;
+        assert( datamanager.get() != nullptr );
+        producer_data.write_stats = &write_stats;
+        consumer_data.read_stats  = &read_stats;
     }
 
     struct ALIGN( L1D_CACHE_LINE_SIZE ) {
@@ -82,5 +81,12 @@ protected:
      * lock free buffer resizing and re-alignment.
      */
     DataManager< T, type >       datamanager;
+
+    /**
+     * the statistics belong to the stream, not to its
+     * current buffer, which is replaced by a resize
+     */
+    Blocked                      write_stats;
+    Blocked                      read_stats;
 };
 #endif /* END RAFTFIFOABSTRACT_TCC */
diff --git a/raftinc/ringbufferheap_abstract.tcc b/raftinc/ringbufferheap_abstract.tcc
index b8788a2..7512385 100644
--- a/raftinc/ringbufferheap_abstract.tcc
+++ b/raftinc/ringbufferheap_abstract.tcc
@@ -164,7 +164,7 @@ TOP:
    virtual void get_zero_read_stats( Blocked &copy )
    {
       
-      auto &buff_ptr_stats( (this)->datamanager.get()->read_stats.all );
+      auto &buff_ptr_stats( (this)->consumer_data.read_stats->all );
       
       copy.all          = buff_ptr_stats;;
       buff_ptr_stats    = 0;
@@ -178,14 +178,14 @@ TOP:
     */
    virtual void get_zero_write_stats( Blocked &copy )
    {
-      auto &buff_ptr_stats( (this)->datamanager.get()->write_stats.all );
+      auto &buff_ptr_stats( (this)->producer_data.write_stats->all );
       copy.all       = buff_ptr_stats;
       buff_ptr_stats = 0;
    }
     
     virtual float get_frac_write_blocked()
     {
-        auto &wr_stats( (this)->datamanager.get()->write_stats );
+        auto &wr_stats( *(this)->producer_data.write_stats );
         const auto copy( wr_stats );
         wr_stats.all = 0;
         if( copy.bec.blocked == 0 || copy.bec.count == 0 )
-- 
2.43.0


From 5a127d2b6738d1d5d0a48c55bd43f9d76b643e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 15/40] fix: keep the access announcements outside the
 replaceable buffer

A thread that announces its access while the buffer is being replaced
wrote into the deleted one.
---
 raftinc/bufferdata.tcc  |  5 -----
 raftinc/database.tcc    |  7 +------
 raftinc/datamanager.tcc | 14 ++++++--------
 3 files changed, 7 insertions(+), 19 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 94ebe7b..0a7d346 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -171,8 +171,6 @@ template < class T > struct Data< T,
         /** since we might use this as a min size, make persistent **/
         (this)->force_resize = other->force_resize;
         /** everything should be put back together now **/
-        (this)->thread_access[ 0 ] = other->thread_access[ 0 ]; 
-        (this)->thread_access[ 1 ] = other->thread_access[ 1 ];
    }
 
 
@@ -302,9 +300,6 @@ template < class T >
         (this)->write_stats = other->write_stats;
         /** since we might use this as a min size, make persistent **/
         (this)->force_resize = other->force_resize;
-        
-        (this)->thread_access[ 0 ] = other->thread_access[ 0 ]; 
-        (this)->thread_access[ 1 ] = other->thread_access[ 1 ];
         /** everything should be put back together now **/
    }
 
diff --git a/raftinc/database.tcc b/raftinc/database.tcc
index 5bbbdfe..19e2945 100644
--- a/raftinc/database.tcc
+++ b/raftinc/database.tcc
@@ -68,14 +68,9 @@ template < class T > struct DataBase
 
 
     /**
-     * read/write pointer. the thread_access is in 
-     * between as it's well accessed by both just
-     * as frequently as the pointers themselves, 
-     * so we get decent caching behavior out of 
-     * doing it this way. 
+     * read/write pointer.
      */
     Pointer                 read_pt;
-    ThreadAccess            thread_access[ 2 ];
     Pointer                 write_pt;
     
     T                       *store          = nullptr;
diff --git a/raftinc/datamanager.tcc b/raftinc/datamanager.tcc
index 65f0a91..f737a0b 100644
--- a/raftinc/datamanager.tcc
+++ b/raftinc/datamanager.tcc
@@ -51,12 +51,6 @@ public:
       (this)->buffer = buffer;
       /** check to see if buffer is given is resizeable **/
       resizeable     = (  buffer->external_alloc ? false : true ); 
-      /** 
-       * need to set thread access structs, should be two of them, 
-       * one for producer anad other for the consumer. These are 
-       * kept as an array here so, only one ptr.
-       */
-      thread_access = buffer->thread_access;
    }
 
    inline bool is_resizeable() noexcept 
@@ -229,8 +223,12 @@ private:
 
    bool                  resizeable          = true;
    
-   /** defined in threadaccess.hpp **/
-   ThreadAccess *thread_access = nullptr;
+   /** 
+    * defined in threadaccess.hpp, one for the producer and one for 
+    * the consumer. These outlive every buffer: a thread announces 
+    * its access before it knows that the buffer is not replaced.
+    */
+   ThreadAccess  thread_access[ 2 ];
   
    std::atomic< std::uint64_t >  checking_size = { 0 };
 
-- 
2.43.0


From 6564997d98acde11f8b93f701099c9db2124a9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:25 +0000
Subject: [PATCH 16/40] fix: collect exactly the elements that were not sent on

fifo_gc walked past the end of the removed elements, and freed forwarded
ones, whenever the two sets differed by more than removed elements in front.
---
 src/schedule.cpp | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/src/schedule.cpp b/src/schedule.cpp
index d72f8f2..b292c0c 100644
--- a/src/schedule.cpp
+++ b/src/schedule.cpp
@@ -273,27 +273,14 @@ Schedule::fifo_gc( ptr_map_t * const in,
                    ptr_set_t * const out,
                    ptr_set_t * const peekset )
 {
-    auto in_begin( in->begin() ), in_end( in->end() );
-    auto out_beg( out->begin() ), out_end( out->end() );
-    while( out_beg != out_end )
+    for( auto &item : *in )
     {
-        if( (*out_beg) != (*in_begin).first )
+        /** elements that were sent on belong to the next kernel **/
+        if( out->find( item.first ) == out->end() )
         {
-            void * const ptr = reinterpret_cast< void* >( (*in_begin).first );
-            (*in_begin).second( ptr );
-            ++in_begin;
+            void * const ptr = reinterpret_cast< void* >( item.first );
+            item.second( ptr );
         }
-        else
-        {
-            ++out_beg;
-            ++in_begin;
-        }
-    }
-    while( in_begin != in_end )
-    {
-            void * const ptr = reinterpret_cast< void* >( (*in_begin).first );
-            (*in_begin).second( ptr );
-            ++in_begin;
     }
     in->clear();
     out->clear();
-- 
2.43.0


From a5c8675e0cce8b9ad796d0509628b392a9ab3675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 17/40] fix: split removes from its input only what it sent

Elements for which the selected output had no space were dropped.
---
 raftinc/split.tcc       | 7 ++++---
 raftinc/splitmethod.hpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/raftinc/split.tcc b/raftinc/split.tcc
index bacb365..f36fcdc 100644
--- a/raftinc/split.tcc
+++ b/raftinc/split.tcc
@@ -52,10 +52,11 @@ public:
       const auto avail( output_port.size() );
       auto range( output_port.template peek_range< T >( avail ) );
       /** split funtion selects a fifo using the appropriate split method **/
-      if( split_func.send( range, output ) )
+      const std::size_t sent( split_func.send( range, output ) );
+      if( sent > 0 )
       {
-         /* recycle item */
-         output_port.recycle( avail );
+         /* recycle only what was sent on */
+         output_port.recycle( sent );
       }
       else
       {
diff --git a/raftinc/splitmethod.hpp b/raftinc/splitmethod.hpp
index eaf15f1..2938775 100644
--- a/raftinc/splitmethod.hpp
+++ b/raftinc/splitmethod.hpp
@@ -62,12 +62,13 @@ public:
     * get it working.
     * @param   range - T&, autorelease object
     * @param   outputs - output port list
+    * @return  number of elements sent, counted from the first one
     */
    template < class T   /* peek range obj,  */,
               typename std::enable_if<
                        ! std::is_base_of< autoreleasebase,
                                         T >::value >::type* = nullptr >
-      bool send( T &range, Port &outputs )
+      std::size_t send( T &range, Port &outputs )
    {
       auto * const fifo( select_fifo( outputs, sendtype ) );
       if( fifo != nullptr )
@@ -80,11 +81,11 @@ public:
          {
             fifo->push( range[ i ].ele, range[ i ].sig );
          }
-         return( true );
+         return( space_avail );
       }
       else
       {
-         return( false );
+         return( 0 );
       }
    }
 
-- 
2.43.0


From 339b9df065e3a0456009bae0bcc36b0296c966e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 18/40] fix: search counts the start of the chunk once

---
 raftinc/search.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raftinc/search.tcc b/raftinc/search.tcc
index 80f000b..8436b35 100644
--- a/raftinc/search.tcc
+++ b/raftinc/search.tcc
@@ -65,7 +65,8 @@ public:
                            term.begin(), term.end() );
          if( it != chunk.end() )
          {
-            const std::size_t loc( it.location() + chunk.start_position );
+            /** location is already relative to the whole file **/
+            const std::size_t loc( it.location() );
             const std::size_t end( loc + term_length );
             output[ "0" ].push( std::make_pair( loc, end ) );
             it += 1;
-- 
2.43.0


From 3dbd014eb8b4e77fe9a6f14366b9b3dd0bebfeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 19/40] fix: copies of a file chunk keep its index

---
 raftinc/filechunk.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raftinc/filechunk.tcc b/raftinc/filechunk.tcc
index dcca9a1..4c26652 100644
--- a/raftinc/filechunk.tcc
+++ b/raftinc/filechunk.tcc
@@ -36,6 +36,7 @@ template < std::size_t size = 65536 > struct filechunk
       std::memcpy( buffer, other.buffer, other.length + 1 /** cp null term **/ );
       start_position = other.start_position;
       length = other.length;
+      index = other.index;
    }
    
    constexpr filechunk< size >& operator = ( const filechunk< size > &other )
@@ -45,6 +46,7 @@ template < std::size_t size = 65536 > struct filechunk
         std::memcpy( buffer, other.buffer, other.length + 1 /** cp null term **/ );
         start_position = other.start_position;
         length = other.length;
+        index = other.index;
         return( *this );
    }
 #pragma pack( push, 1 )
-- 
2.43.0


From 8c920fe03be0b61506cbc7df17ee647e48ac2790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 20/40] fix: the file reader ends with the chunk that reaches
 the end of the file

The number of chunks was computed in advance, too small for long files with
overlapping chunks, and the chunk that carried end-of-file was not the last.
---
 raftinc/fileio.tcc | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/raftinc/fileio.tcc b/raftinc/fileio.tcc
index a1517a1..ae5b427 100644
--- a/raftinc/fileio.tcc
+++ b/raftinc/fileio.tcc
@@ -83,14 +83,6 @@ public:
 
       /** get length in bytes **/
       length = st.st_size;
-      if(chunk_offset !=  0 )
-      {
-        iterations = std::ceil( (float) length / (float) ( (chunktype::getChunkSize() - 1) - (chunk_offset - 1) ) );
-      }
-      else
-      {
-        iterations = std::ceil( (float) length / (float)( chunktype::getChunkSize() - 1 ) );
-      }
    }
 
    virtual raft::kstatus run()
@@ -116,13 +108,9 @@ public:
                fread( chunk.buffer, sizeof( char ), chunksize - 1 , fp ) );
             chunk.buffer[ num_read ] = '\0';
             chunk.length = num_read;
-            port.send(
-               ( iterations - output.count() /* num ports */ ) > 0 ?
-                  raft::none :
-                  raft::eof );
-            static_assert( std::is_signed< decltype( iterations ) >::value,
-                           "iterations must be a signed type" );
-            if( --iterations < 0 )
+            const bool last( num_read < chunksize - 1 || ftell( fp ) >= length );
+            port.send( last ? raft::eof : raft::none );
+            if( last )
             {
                return( raft::stop );
             }
@@ -135,7 +123,6 @@ private:
    /** opened in the constructor **/
    FILE           *fp         = nullptr;
    std::streamsize length     = 0;
-   std::int64_t    iterations = 0;
    bool            init       = false;
    std::uint64_t   chunk_index = 0;
    offset_type     chunk_offset;
-- 
2.43.0


From 6fe23eff830666b9f35363472edbfae08be88031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:32 +0000
Subject: [PATCH 21/40] fix: kernels on existing memory take an identifier of
 their own

---
 src/kernel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernel.cpp b/src/kernel.cpp
index 64e2010..8a6848a 100644
--- a/src/kernel.cpp
+++ b/src/kernel.cpp
@@ -24,6 +24,7 @@ kernel::kernel( void * const ptr,
    output( this, ptr, nbytes ),
    kernel_id( kernel::kernel_count )
 {
+   kernel::kernel_count++;
 }
 
 
-- 
2.43.0


From ace6ad8c4e22496666f684b31896a04acef138b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 22/40] fix: a copied print kernel has as many ports as the
 original

---
 raftinc/print.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raftinc/print.tcc b/raftinc/print.tcc
index a36df07..61003b2 100644
--- a/raftinc/print.tcc
+++ b/raftinc/print.tcc
@@ -40,7 +40,8 @@ template< typename T > class printabstract : public raft::kernel,
 {
 public:
     printabstract( const std::size_t n_input_ports = 1 ) : raft::kernel(),
-                                                           raft::printbase()
+                                                           raft::printbase(),
+                                                           input_port_count( n_input_ports )
     {
         using index_type = std::remove_const_t< decltype( n_input_ports ) >;
         for( index_type index( 0 ); index < n_input_ports; index++ )
@@ -61,7 +62,8 @@ public:
     
     printabstract( std::ostream &stream, 
                    const std::size_t n_input_ports = 1 )  : raft::kernel(),
-                                                            raft::printbase()
+                                                            raft::printbase(),
+                                                            input_port_count( n_input_ports )
     {
         using index_type = std::remove_const_t< decltype( n_input_ports ) >;
         for( index_type index( 0 ); index < n_input_ports; index++ )
-- 
2.43.0


From 7eb1813f61451545469b0cf681a343afe5f0bb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:55 +0000
Subject: [PATCH 23/40] fix: an unconnected port does not end a graph traversal

The missing kernel at its other end was queued, and the traversal stopped there.
---
 src/graphtools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graphtools.cpp b/src/graphtools.cpp
index ebec290..d9323dc 100644
--- a/src/graphtools.cpp
+++ b/src/graphtools.cpp
@@ -135,7 +135,8 @@ GraphTools::__BFS( std::queue< raft::kernel* > &queue,
             throw PortException( ss.str() );
          }
          /** if the dst kernel hasn't been visited, visit it **/
-         if( visited_set.find( source.other_kernel ) == visited_set.end() )
+         if( source.other_kernel != nullptr &&
+             visited_set.find( source.other_kernel ) == visited_set.end() )
          {
             queue.push( source.other_kernel );
             visited_set.insert( source.other_kernel );
-- 
2.43.0


From c95127be8886d7e2e9de209e2b20c31fa343454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:16 +0000
Subject: [PATCH 24/40] fix: release the port map when a traversal callback
 throws

---
 src/graphtools.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/graphtools.cpp b/src/graphtools.cpp
index d9323dc..9d6b4c4 100644
--- a/src/graphtools.cpp
+++ b/src/graphtools.cpp
@@ -109,6 +109,9 @@ GraphTools::__BFS( std::queue< raft::kernel* > &queue,
       {
         raft::yield();
       }
+      /** released on every way out, the callback might throw **/
+      std::lock_guard< std::mutex > guard( k->output.portmap.mutex_map,
+                                           std::adopt_lock );
       //we have lock, continue
       /** 2) get map **/
       auto &map_of_ports( k->output.portmap.map );
@@ -131,7 +134,6 @@ GraphTools::__BFS( std::queue< raft::kernel* > &queue,
                common::printClassName( *k ) <<
                   "[ \"" <<
                   source.my_name << " \"], please fix and recompile.";
-            k->output.portmap.mutex_map.unlock();
             throw PortException( ss.str() );
          }
          /** if the dst kernel hasn't been visited, visit it **/
@@ -142,7 +144,6 @@ GraphTools::__BFS( std::queue< raft::kernel* > &queue,
             visited_set.insert( source.other_kernel );
          }
       }
-      k->output.portmap.mutex_map.unlock();
    }
    return;
 }
@@ -164,6 +165,9 @@ GraphTools::__BFS( std::queue< raft::kernel* > &queue,
       {
         raft::yield();
       }
+      /** released on every way out, the callback might throw **/
+      std::lock_guard< std::mutex > guard( source->output.portmap.mutex_map,
+                                           std::adopt_lock );
       /** 2) get map **/
       auto &map_of_ports( source->output.portmap.map );
       /** 3) visit kernel **/
@@ -183,7 +187,6 @@ GraphTools::__BFS( std::queue< raft::kernel* > &queue,
             }
          }
       }
-      source->output.portmap.mutex_map.unlock();
    }
    return;
 }
-- 
2.43.0


From 632b8a0917f06ed8694d1eebcb74efea5cc09ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 25/40] fix: closing a stream is not lost when it is resized
 meanwhile

---
 raftinc/datamanager.tcc             | 27 ++++++++++++++++++++++++++-
 raftinc/ringbufferheap_abstract.tcc |  6 ++----
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/raftinc/datamanager.tcc b/raftinc/datamanager.tcc
index f737a0b..9aa1379 100644
--- a/raftinc/datamanager.tcc
+++ b/raftinc/datamanager.tcc
@@ -125,7 +125,7 @@ public:
       {
          /** check to see if program is done **/
          if( exit_buffer /** comes from allocator **/ |
-             ! old_buffer->is_valid  /** comes indirectly from scheduler **/ )
+             ! valid       /** comes indirectly from scheduler **/ )
          {
             /** get rid of newly allocated buff, don't need **/
             delete( new_buffer );
@@ -215,6 +215,25 @@ public:
    {
       return( R_UNLIKELY( ! resizing ) ); 
    }
+
+   /**
+    * invalidate - mark the stream as closed, this holds for every
+    * buffer that follows, so it can be called without announcing 
+    * an access to the buffer.
+    */
+   void invalidate() noexcept
+   {
+      valid = false;
+   }
+
+   /**
+    * isValid - false once the stream has been closed
+    * @return bool
+    */
+   bool isValid() const noexcept
+   {
+      return( valid );
+   }
    
 
 private:
@@ -222,6 +241,12 @@ private:
    volatile bool         resizing            =  false;
 
    bool                  resizeable          = true;
+
+   /** 
+    * lives here rather than in the buffer, so that closing a stream 
+    * while it is resized is never lost. 
+    */
+   volatile bool         valid               =  true;
    
    /** 
     * defined in threadaccess.hpp, one for the producer and one for 
diff --git a/raftinc/ringbufferheap_abstract.tcc b/raftinc/ringbufferheap_abstract.tcc
index 7512385..4dcb863 100644
--- a/raftinc/ringbufferheap_abstract.tcc
+++ b/raftinc/ringbufferheap_abstract.tcc
@@ -113,8 +113,7 @@ TOP:
     */
    virtual void invalidate()
    {
-      auto * const ptr( (this)->datamanager.get() );
-      ptr->is_valid = false;
+      (this)->datamanager.invalidate();
       return;
    }
    
@@ -127,8 +126,7 @@ TOP:
     */
    virtual bool is_invalid()
    {
-      auto * const ptr( (this)->datamanager.get() );
-      return( ! ptr->is_valid );
+      return( ! (this)->datamanager.isValid() );
    }
 
 
-- 
2.43.0


From f30acbd7984a21ba8bef8665155cae360434534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 26/40] fix: a link that fails leaves the buffer sizes of its
 ports alone

---
 raftinc/mapbase.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raftinc/mapbase.hpp b/raftinc/mapbase.hpp
index afb0864..1180112 100644
--- a/raftinc/mapbase.hpp
+++ b/raftinc/mapbase.hpp
@@ -107,7 +107,6 @@ public:
         {
             port_info_a =  &a->output.getPortInfoFor( a_port );
         }
-        port_info_a->fixed_buffer_size = buffer;
         /**
          * START dst port discovery
          */
@@ -130,7 +129,6 @@ public:
         {
             port_info_b = &b->input.getPortInfoFor( b_port );
         }
-        port_info_b->fixed_buffer_size = buffer;
         
         assert( port_info_a != nullptr );
         assert( port_info_b != nullptr );
@@ -138,6 +136,10 @@ public:
         join( *a, a_port, *port_info_a, 
               *b, b_port, *port_info_b );
         
+        /** only once the ports are joined, a failed link changes nothing **/
+        port_info_a->fixed_buffer_size = buffer;
+        port_info_b->fixed_buffer_size = buffer;
+        
         set_order< t >( *port_info_a, *port_info_b ); 
         return( kernel_pair_t( a, b ) );
     }
-- 
2.43.0


From 62d3b06f62690e402ff27b5238c1a8a3931ded3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:48 +0000
Subject: [PATCH 27/40] fix: a kernel can be inserted into an existing link

---
 src/mapbase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mapbase.cpp b/src/mapbase.cpp
index 9b6bca2..087cf53 100644
--- a/src/mapbase.cpp
+++ b/src/mapbase.cpp
@@ -106,6 +106,9 @@ MapBase::insert( raft::kernel *a,  PortInfo &a_out,
    PortInfo &i_in( i->input.getPortInfoFor( raft::port_key_type( 0 ) ) ),
             &i_out( i->output.getPortInfoFor( raft::port_key_type( 0 ) ) );
 #endif
+   /** the former link ends here, join takes unconnected ports only **/
+   a_out.other_kernel = nullptr;
+   b_in.other_kernel  = nullptr;
    join( *a, a_out.my_name, a_out,
          *i, i_in.my_name, i_in );
    join( *i, i_out.my_name, i_out,
-- 
2.43.0


From 1af8ba829dabc4fb1807b847baf5c4c096de31f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:38 +0000
Subject: [PATCH 28/40] fix: a worker knows its core before its thread starts

---
 raftinc/simpleschedule.hpp | 12 ++++++++----
 src/simpleschedule.cpp     |  4 ++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/raftinc/simpleschedule.hpp b/raftinc/simpleschedule.hpp
index a0171d8..3cefeb7 100644
--- a/raftinc/simpleschedule.hpp
+++ b/raftinc/simpleschedule.hpp
@@ -46,8 +46,10 @@ protected:
    struct thread_data
    {
       constexpr thread_data( raft::kernel * const k,
-                             bool *fin ) : k( k ),
-                                           finished( fin ){}
+                             bool *fin,
+                             const core_id_t loc ) : k( k ),
+                                                     finished( fin ),
+                                                     loc( loc ){}
 
       raft::kernel *k         = nullptr;
       bool         *finished  = nullptr;
@@ -56,8 +58,10 @@ protected:
    
    struct thread_info_t
    {
-      thread_info_t( raft::kernel * const kernel ) : data( kernel, 
-                                                           &finished ),
+      thread_info_t( raft::kernel * const kernel,
+                     const core_id_t loc ) : data( kernel, 
+                                                   &finished,
+                                                   loc ),
                                      th( simple_run,
                                          reinterpret_cast< void* >( &data ) )
       {
diff --git a/src/simpleschedule.cpp b/src/simpleschedule.cpp
index c26d164..29b78f1 100644
--- a/src/simpleschedule.cpp
+++ b/src/simpleschedule.cpp
@@ -123,8 +123,8 @@ simple_schedule::handleSchedule( raft::kernel * const kernel )
       /** 
        * TODO: lets add the affinity dynamically here
        */
-      auto * const th_info( new thread_info_t( kernel ) );
-      th_info->data.loc = kernel->getCoreAssignment();
+      auto * const th_info( new thread_info_t( kernel, 
+                                               kernel->getCoreAssignment() ) );
 
       /** 
        * thread function takes a reference back to the scheduler
-- 
2.43.0


From a997c932fb5b12aded050485e414ee073f389d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:46 +0000
Subject: [PATCH 29/40] fix: a traversal started from a list visits a kernel
 named twice only once

---
 src/graphtools.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/graphtools.cpp b/src/graphtools.cpp
index 9d6b4c4..3aa63ab 100644
--- a/src/graphtools.cpp
+++ b/src/graphtools.cpp
@@ -64,8 +64,11 @@ GraphTools::BFS( std::vector< raft::kernel* > &source_kernels,
                   source_kernels.end(),
                   [&]( raft::kernel *k )
                   {
-                     queue.push( k );
-                     visited_set.insert( k );
+                     /** the list might name a kernel twice **/
+                     if( visited_set.insert( k ).second )
+                     {
+                        queue.push( k );
+                     }
                   } );
    GraphTools::__BFS( queue, visited_set, func, data, connected_error );
 }
-- 
2.43.0


From 3f5993a1aa4cbe4eb9cc1d6a86c6c5a6fe077ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:17 +0000
Subject: [PATCH 30/40] fix: a chain on the right of a topology operator is
 linked completely

---
 raftinc/kpair.hpp | 14 ++++++++++++++
 src/kpair.cpp     | 38 ++++++++++++++++++++++++++++----------
 2 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/raftinc/kpair.hpp b/raftinc/kpair.hpp
index 2e64b2d..3c2a21f 100644
--- a/raftinc/kpair.hpp
+++ b/raftinc/kpair.hpp
@@ -108,6 +108,20 @@ public:
     void setOoO() noexcept;
 
 protected:
+    /**
+     * last - returns the last pair of the chain this one is part of
+     */
+    kpair& last() noexcept;
+
+    /**
+     * attach - continues this pair with an existing chain, all of 
+     * whose pairs are part of the chain that starts at front from 
+     * here on.
+     * @param   chain - kpair&, first pair of the chain to attach
+     * @param   front - kpair&, first pair of the resulting chain
+     */
+    void attach( kpair &chain, kpair &front ) noexcept;
+
     kpair        *next          = nullptr;
     kpair        *head          = nullptr;
     raft::kernel *src           = nullptr;
diff --git a/src/kpair.cpp b/src/kpair.cpp
index 690efa6..d382899 100644
--- a/src/kpair.cpp
+++ b/src/kpair.cpp
@@ -38,10 +38,10 @@ kpair::kpair( raft::kernel_wrapper &a,
 kpair::kpair( kpair &a, 
               raft::kernel &b,
               const bool split,
-              const bool join ) : kpair( *(a.dst), b )
+              const bool join ) : kpair( *(a.last().dst), b )
 {
+    a.last().next = this;
     head        = a.head;
-    a.next  = this;
     split_to    = split;
     join_from   = join;
 }
@@ -59,10 +59,9 @@ kpair::kpair( kpair &a,
 kpair::kpair( raft::kernel &a,
               kpair        &n, 
               const bool split,
-              const bool join ) : kpair( a, *(n.src) )
+              const bool join ) : kpair( a, *(n.head->src) )
 {
-    head        = this;
-    next        = &n;
+    attach( *n.head, *this );
     split_to    = split;
     join_from   = join;
 }
@@ -76,12 +75,10 @@ kpair::kpair( raft::kernel_wrapper &a,
 kpair::kpair( kpair &a,
               kpair &b, 
               const bool split,
-              const bool join ) : kpair( *(a.dst), *(b.src) )
+              const bool join ) : kpair( *(a.last().dst), *(b.head->src) )
 {
-    head = a.head;
-    a.next = this;
-    b.head = a.head;
-    next = &b;
+    a.last().next = this;
+    attach( *b.head, *a.head );
     split_to  = split;
     join_from = join;
 }
@@ -123,6 +120,27 @@ kpair::kpair( raft::kernel_wrapper &a,
 {
 }
 
+kpair&
+kpair::last() noexcept
+{
+    auto *ptr( this );
+    while( ptr->next != nullptr )
+    {
+        ptr = ptr->next;
+    }
+    return( *ptr );
+}
+
+void
+kpair::attach( kpair &chain, kpair &front ) noexcept
+{
+    next = &chain;
+    for( auto *ptr( this ); ptr != nullptr; ptr = ptr->next )
+    {
+        ptr->head = &front;
+    }
+}
+
 void 
 kpair::setOoO() noexcept
 {
-- 
2.43.0


From 7165bde7283f02bedd0e4e0e30b014fecf194d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 31/40] fix: duplicating the chain in front of a join copies
 all of its kernels

---
 src/map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.cpp b/src/map.cpp
index 6621cc8..b40c4f0 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -653,7 +653,7 @@ raft::map::inline_dup_join( kernels_t &groups,
                     head_next->dst = dst;
                     joink( head_next );
                     src = dst;
-                    head_next = next;
+                    head_next = head_next->next;
                 }
                 /** now need to link chain to current join **/
                 //src already alloced
-- 
2.43.0


From 0fbd34d24ca69ba954b69167bacc36a956e86f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 32/40] fix: assigning a wrapper moves ownership like copying
 it

---
 raftinc/kernel_wrapper.hpp |  8 ++++++++
 src/kernel_wrapper.cpp     | 16 ++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/raftinc/kernel_wrapper.hpp b/raftinc/kernel_wrapper.hpp
index 7fbc300..c4f2dee 100644
--- a/raftinc/kernel_wrapper.hpp
+++ b/raftinc/kernel_wrapper.hpp
@@ -52,6 +52,14 @@ public:
      */
     kernel_wrapper( const kernel_wrapper &other );
     
+    /**
+     * operator = - same as the copy constructor, takes ownership of
+     * the kernel wrapped by other. The kernel owned so far (if
+     * there is one) is deleted.
+     * @param   other - const kernel_wrapper
+     */
+    kernel_wrapper& operator = ( const kernel_wrapper &other );
+    
     /** 
      * destructor deletes stored kernel 
      * if it exits scope...should exit
diff --git a/src/kernel_wrapper.cpp b/src/kernel_wrapper.cpp
index e0a7f02..268a55a 100644
--- a/src/kernel_wrapper.cpp
+++ b/src/kernel_wrapper.cpp
@@ -34,6 +34,22 @@ kernel_wrapper::kernel_wrapper( const kernel_wrapper &other ) : k( other.k )
         = reinterpret_cast< raft::kernel* >( kernel_wrapper::sentinel ); 
 }
 
+kernel_wrapper& 
+kernel_wrapper::operator = ( const kernel_wrapper &other )
+{
+    if( this != &other )
+    {
+        if( reinterpret_cast< std::uintptr_t >( k ) != kernel_wrapper::sentinel )
+        {
+            delete( k );
+        }
+        k = other.k;
+        const_cast<kernel_wrapper&>( other ).k 
+            = reinterpret_cast< raft::kernel* >( kernel_wrapper::sentinel ); 
+    }
+    return( *this );
+}
+
 kernel_wrapper::~kernel_wrapper()
 {
     /** 
-- 
2.43.0


From d4f48ff8be141af0c80dc16e2e9b8de85d21e739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 33/40] fix: an in-place port with a name in use is an error

---
 raftinc/port.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/raftinc/port.hpp b/raftinc/port.hpp
index 7abf7f0..4c17976 100644
--- a/raftinc/port.hpp
+++ b/raftinc/port.hpp
@@ -194,7 +194,11 @@ public:
          (this)->initializeConstMap< T >( pi );
          (this)->initializeSplit<    T >( pi );
          (this)->initializeJoin<     T >( pi );
-         portmap.map.insert( std::make_pair( name, pi ) );
+         const auto ret_val( portmap.map.insert( std::make_pair( name, pi ) ) );
+         if( ! ret_val.second )
+         {
+            throw PortAlreadyExists( "FATAL ERROR: port \"" + getPortName( name ) + "\" already exists!" );
+         }
 #ifndef STRING_NAMES
          portmap.name_map.insert( std::make_pair( name, raft::port_key_name_t( index, std::to_string( index ) ) ) );
 #endif         
-- 
2.43.0


From 6d86ed74eed61a2b48dee6b39600b201c0553ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 34/40] fix: placement does not divide by an unknown number of
 cores

---
 src/partition_basic.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/partition_basic.cpp b/src/partition_basic.cpp
index 822a325..935a5a4 100644
--- a/src/partition_basic.cpp
+++ b/src/partition_basic.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <thread>
 #include "partition_basic.hpp"
 
@@ -5,7 +6,8 @@
 void
 partition_basic::partition( kernelkeeper &c )
 {
-    const auto num_cores( std::thread::hardware_concurrency() );
+    /** zero means that the number of cores isn't known **/
+    const auto num_cores( std::max( 1u, std::thread::hardware_concurrency() ) );
     core_id_t i( 0 );
     auto &container( c.acquire() );
     for( auto *kernel : container )
-- 
2.43.0


From 2841d74a21ed2d3efddf7e33e6d174b5fe9a5fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 35/40] fix: a split locks the ports it adds to

---
 raftinc/split.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raftinc/split.tcc b/raftinc/split.tcc
index f36fcdc..20980c6 100644
--- a/raftinc/split.tcc
+++ b/raftinc/split.tcc
@@ -73,12 +73,12 @@ public:
 protected:
    virtual void lock()
    {
-      lock_helper( input );
+      lock_helper( output );
    }
 
    virtual void unlock()
    {
-      unlock_helper( input );
+      unlock_helper( output );
    }
    method split_func;
 };
-- 
2.43.0


From 85b3520dc5aac774e650a5974fb307227112a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 36/40] fix: a random source asked for no values sends none

---
 raftinc/random.tcc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/raftinc/random.tcc b/raftinc/random.tcc
index 48f9e5a..0ba4825 100644
--- a/raftinc/random.tcc
+++ b/raftinc/random.tcc
@@ -77,6 +77,11 @@ public:
     {
         for( auto &p : output )
         {
+            /** nothing to send at all **/
+            if( count_of_sent >= N )
+            {
+                return( raft::stop );
+            }
             p.push( dist( gen ) );
             if( ++count_of_sent >= N )
             {
-- 
2.43.0


From cc49553e299d6720811cca9db0d13ca3e4e5a8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:31 +0000
Subject: [PATCH 37/40] fix: announcing an access and starting a resize see
 each other

---
 raftinc/datamanager.tcc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/raftinc/datamanager.tcc b/raftinc/datamanager.tcc
index 9aa1379..3eac3e8 100644
--- a/raftinc/datamanager.tcc
+++ b/raftinc/datamanager.tcc
@@ -135,10 +135,16 @@ public:
          }
          /** set resizing global flag **/
          resizing = true;
+         /** 
+          * pairs with the fence in enterBuffer: either the access is 
+          * seen here or the one who announced it sees that we're resizing
+          */
+         std::atomic_thread_fence( std::memory_order_seq_cst );
          /** see if everybody is done with the current buffer **/
          if( allclear( thread_access, &checking_size ) )
          {
             /** check to see if the state of the buffer is good **/
+            std::atomic_thread_fence( std::memory_order_acquire );
             if( buffercondition( old_buffer ) )
             {
                break;
@@ -189,6 +195,8 @@ public:
                   static_cast< dm::key_t >( 1 ),
                   thread_access,
                   &checking_size );
+      /** must be visible before notResizing() is read, see resize() **/
+      std::atomic_thread_fence( std::memory_order_seq_cst );
    }
 
    /**
@@ -199,6 +207,8 @@ public:
     */
    void exitBuffer( const dm::access_key key ) noexcept
    {
+      /** the access must be complete before it's withdrawn **/
+      std::atomic_thread_fence( std::memory_order_release );
       /** see lambda below **/
       set_helper( key, 
                   static_cast< dm::key_t >( 0 ),
@@ -238,7 +248,7 @@ public:
 
 private:
    Buffer::Data< T, B > *buffer              = nullptr; 
-   volatile bool         resizing            =  false;
+   std::atomic< bool >   resizing            = { false };
 
    bool                  resizeable          = true;
 
-- 
2.43.0


From b03b889ad2fed7d08a48c23e6e115331f30a855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:18 +0000
Subject: [PATCH 38/40] fix: a resize moves elements that cannot be copied
 bytewise

---
 raftinc/bufferdata.tcc | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 0a7d346..d1fac88 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -26,7 +26,9 @@
 #include <thread>
 #include <cinttypes>
 #include <iostream>
+#include <new>
 #include <type_traits>
+#include <utility>
 #if defined __APPLE__ || defined __linux
 #include <sys/mman.h>
 #include <shm>
@@ -156,9 +158,10 @@ template < class T > struct Data< T,
         (this)->is_valid = other->is_valid;
 
         /** buffer is already alloc'd, copy **/
-        std::memcpy( (void*)(this)->store /* dst */,
-                     (void*)other->store  /* src */,
-                     other->length_store );
+        moveElements( other, 
+                      std::integral_constant< bool, 
+                                              ! std::is_class< T >::value ||
+                         std::is_trivially_copyable< T >::value >() );
         
         /** copy signal buff **/
         std::memcpy( (void*)(this)->signal /* dst */,
@@ -188,6 +191,29 @@ template < class T > struct Data< T,
       free( (this)->signal );
    }
 
+private:
+   /** elements that may be copied byte by byte **/
+   void moveElements( DataBase< T > *other, std::true_type )
+   {
+      std::memcpy( (void*)(this)->store /* dst */,
+                   (void*)other->store  /* src */,
+                   other->length_store );
+   }
+
+   /** 
+    * elements that might refer to themselves, the live ones are those 
+    * between the read and write pointer, see DataManager::resize
+    */
+   void moveElements( DataBase< T > *other, std::false_type )
+   {
+      const auto end( Pointer::val( other->write_pt ) );
+      for( auto i( Pointer::val( other->read_pt ) ); i < end; i++ )
+      {
+         new ( &(this)->store[ i ] ) T( std::move( other->store[ i ] ) );
+         ( &other->store[ i ] )->~T();
+      }
+   }
+
 }; /** end heap < Line Size **/
 
 /** buffer structure for "heap" storage class > line size **/
-- 
2.43.0


From 8e578b83822b3016406438c40332b1b9a82e234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 39/40] fix: raft::range writes one element past its result

---
 raftinc/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raftinc/utility.hpp b/raftinc/utility.hpp
index 20eb7d5..8b44fc1 100644
--- a/raftinc/utility.hpp
+++ b/raftinc/utility.hpp
@@ -67,7 +67,7 @@ range( const A a,
      common_v_t< A, B > out( cap );
      auto index( 0 );
      for( common_t< A, B > i( a ); 
-      std::islessequal( i, b + delta ); i += delta, index++ )
+      index < static_cast< decltype( index ) >( out.size() ); i += delta, index++ )
      {
         out[ index ] = i;
      }
@@ -79,7 +79,7 @@ range( const A a,
      common_v_t< A, B > out( cap );
      auto index( 0 );
      for( common_t< A, B > i( a ); 
-      std::isgreaterequal( i, b - delta ); i -= delta, index++ )
+      index < static_cast< decltype( index ) >( out.size() ); i -= delta, index++ )
      {
         out[ index ] = i;
      }
-- 
2.43.0


From e45876af5d77d2644f12451c0323f99ab493b8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:24 +0000
Subject: [PATCH 40/40] fix: joins of nested splits group their kernels by the
 enclosing split's width

inline_join regrouped by the width of the split it ends. With an outer split
wider than the inner one the outer join then read past the end of its group.
---
 src/map.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/map.cpp b/src/map.cpp
index b40c4f0..89a9b29 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -520,6 +520,11 @@ raft::map::inline_join( split_stack_t &split_stack,
                         kernels_t     &temp_groups,
                         kpair * const next )
 {
+    /** 
+     * this join ends the innermost split, the kernels it makes belong
+     * to the split around that one, so that is the count to go by
+     */
+    split_stack.pop();
     /** need to get the count **/
     std::size_t count( 0 );
     /**
@@ -553,7 +558,7 @@ raft::map::inline_join( split_stack_t &split_stack,
         if( count <= 0 )
         {
             temp_groups.push_back( up_group_t( new group_t() ) );
-            count = split_stack.top();
+            count = split_stack.empty() ? groups.size() : split_stack.top();
         }
         if( temp_groups[ 0 ]->size() == 0 )
         {
@@ -577,7 +582,6 @@ raft::map::inline_join( split_stack_t &split_stack,
         }
         count--;
     }
-    split_stack.pop();
 }
 
 
-- 
2.43.0

