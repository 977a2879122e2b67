From df03573b5b63703b1808d2392a619957f02b6310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:55 +0000
Subject: [PATCH 01/57] fix: arena sizes of 16 MB and more were truncated to 24
 bits

---
 runtime/arena.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/runtime/arena.c b/runtime/arena.c
index 50b05fa..a14a17c 100644
--- a/runtime/arena.c
+++ b/runtime/arena.c
@@ -32,9 +32,9 @@
 #include <string.h>
 
 struct gracht_header {
-    uint32_t length    : 24;
+    uint32_t length;
     uint32_t allocated : 1;
-    uint32_t flags     : 7;
+    uint32_t flags     : 31;
     uint32_t payload[1];
 };
 
@@ -58,7 +58,7 @@ int gracht_arena_create(size_t size, struct gracht_arena** arenaOut)
     struct gracht_arena* arena;
     void*                base;
 
-    if (!size || !arenaOut) {
+    if (size <= HEADER_SIZE || size > UINT32_MAX || !arenaOut) {
         errno = EINVAL;
         return -1;
     }
@@ -81,7 +81,7 @@ int gracht_arena_create(size_t size, struct gracht_arena** arenaOut)
     arena->length = size;
 
     // initialize the first header
-    arena->base->length = (uint32_t)(size & 0x00FFFFFF) - HEADER_SIZE;
+    arena->base->length = (uint32_t)(size - HEADER_SIZE);
     arena->base->flags  = 0;
     arena->base->allocated = 0;
 
@@ -142,10 +142,10 @@ static inline struct gracht_header* find_free_header(struct gracht_arena* arena,
 void* gracht_arena_allocate(struct gracht_arena* arena, void* allocation, size_t size)
 {
     struct gracht_header* allocHeader;
-    uint32_t              correctedSize = (uint32_t)(size & 0x00FFFFFF);
+    uint32_t              correctedSize = (uint32_t)size;
     GRTRACE(GRSTR("gracht_arena_allocate(arena=0x%p, allocation=0x%p, size=%u)"), arena, allocation, correctedSize);
 
-    if (!arena || !size) {
+    if (!arena || !size || size > arena->length) {
         return NULL;
     }
 
@@ -195,7 +195,7 @@ void* gracht_arena_allocate(struct gracht_arena* arena, void* allocation, size_t
 
     // update current header
     allocHeader->allocated = 1;
-    allocHeader->length = (uint32_t)(correctedSize & 0x00FFFFFF);
+    allocHeader->length = correctedSize;
     GRTRACE(GRSTR("gracht_arena_allocate returns=%p"), &allocHeader->payload[0]);
     mtx_unlock(&arena->mutex);
     return &allocHeader->payload[0];
@@ -205,7 +205,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
 {
     struct gracht_header* header;
     struct gracht_header* nextHeader;
-    uint32_t              allocLength = (uint32_t)(size & 0x00FFFFFF);
+    uint32_t              allocLength = (uint32_t)size;
     GRTRACE(GRSTR("gracht_arena_free(arena=0x%p, memory=0x%p, size=%u)"), arena, memory, allocLength);
 
     if (!arena || !memory) {
-- 
2.43.0


From 847cbbaaea9c68f38ce746fdd325a68ba89db4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:59 +0000
Subject: [PATCH 02/57] fix: arena walked and merged past the end of its memory

---
 runtime/arena.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/runtime/arena.c b/runtime/arena.c
index a14a17c..a16c503 100644
--- a/runtime/arena.c
+++ b/runtime/arena.c
@@ -53,6 +53,16 @@ struct gracht_arena {
 
 void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size);
 
+// returns the header following the given one, or NULL if it is the last one in the arena
+static inline struct gracht_header* get_next_header(struct gracht_arena* arena, struct gracht_header* header)
+{
+    struct gracht_header* next = GET_NEXT_HEADER(header);
+    if ((char*)next + HEADER_SIZE > (char*)arena->base + arena->length) {
+        return NULL;
+    }
+    return next;
+}
+
 int gracht_arena_create(size_t size, struct gracht_arena** arenaOut)
 {
     struct gracht_arena* arena;
@@ -119,22 +129,16 @@ static inline void move_header(struct gracht_header* header, long byteCount)
 
 static inline struct gracht_header* find_free_header(struct gracht_arena* arena, uint32_t size)
 {
-    struct gracht_header* itr    = arena->base;
-    uint32_t              length = 0;
+    struct gracht_header* itr = arena->base;
 
     GRTRACE(GRSTR("find_free_header(arena=0x%p, size=%u)"), arena, size);
-    while (length < arena->length) {
+    while (itr) {
         GRTRACE(GRSTR("header: at=0x%p length=%u, allocated=%i"), itr, itr->length, itr->allocated);
         if (!itr->allocated && itr->length >= size) {
             return itr;
         }
 
-        if (!itr->length) {
-            break;
-        }
-
-        length += itr->length;
-        itr = GET_NEXT_HEADER(itr);
+        itr = get_next_header(arena, itr);
     }
     return NULL;
 }
@@ -152,13 +156,17 @@ void* gracht_arena_allocate(struct gracht_arena* arena, void* allocation, size_t
     mtx_lock(&arena->mutex);
     if (allocation) {
         struct gracht_header* header     = GET_HEADER(allocation);
-        struct gracht_header* nextHeader = GET_NEXT_HEADER(header);
+        struct gracht_header* nextHeader = get_next_header(arena, header);
 
-        if (!nextHeader || nextHeader->allocated) {
+        if (!nextHeader || nextHeader->allocated || nextHeader->length < correctedSize) {
             // we must reallocate the memory space to somewhere else
             correctedSize += header->length;
 
             allocHeader = find_free_header(arena, correctedSize);
+            if (!allocHeader) {
+                mtx_unlock(&arena->mutex);
+                return NULL;
+            }
             memcpy(&allocHeader->payload[0], &header->payload[0], header->length);
 
             // what consequences could this call have
@@ -214,7 +222,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
 
     mtx_lock(&arena->mutex);
     header     = GET_HEADER(memory);
-    nextHeader = GET_NEXT_HEADER(header);
+    nextHeader = get_next_header(arena, header);
 
     // currently we only merge in forward direction, to merge in backwards
     // direction without iterating we need to add an allocation footer
@@ -231,7 +239,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
 
         // either we must adjust the header link or create a new
         // based on whether its free or not
-        if (!nextHeader->allocated) {
+        if (nextHeader && !nextHeader->allocated) {
             long negated = 0 - (long)allocLength;
             GRTRACE(GRSTR("%p=moving by %li bytes"), nextHeader, negated);
 
@@ -246,7 +254,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
     }
     else {
         header->allocated = 0;
-        if (!nextHeader->allocated) {
+        if (nextHeader && !nextHeader->allocated) {
             header->length += nextHeader->length + HEADER_SIZE;
         }
     }
-- 
2.43.0


From 5a0d56a17da589e211fb50ea53cd9d4c107572d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:27 +0000
Subject: [PATCH 03/57] fix: adjacent free blocks in the arena were never
 consolidated, which exhausted it

---
 runtime/arena.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/runtime/arena.c b/runtime/arena.c
index a16c503..b7814d9 100644
--- a/runtime/arena.c
+++ b/runtime/arena.c
@@ -134,11 +134,17 @@ static inline struct gracht_header* find_free_header(struct gracht_arena* arena,
     GRTRACE(GRSTR("find_free_header(arena=0x%p, size=%u)"), arena, size);
     while (itr) {
         GRTRACE(GRSTR("header: at=0x%p length=%u, allocated=%i"), itr, itr->length, itr->allocated);
+        struct gracht_header* next = get_next_header(arena, itr);
         if (!itr->allocated && itr->length >= size) {
             return itr;
         }
 
-        itr = get_next_header(arena, itr);
+        // consolidate neighbouring free headers, a free only merges in forward direction
+        if (!itr->allocated && next && !next->allocated) {
+            itr->length += next->length + HEADER_SIZE;
+            continue;
+        }
+        itr = next;
     }
     return NULL;
 }
-- 
2.43.0


From d94b3afbcf06e88d5497b998ac5d81fed2a6eac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:31 +0000
Subject: [PATCH 04/57] fix: returning an unused receive buffer leaked its
 spillover bytes in the arena

---
 runtime/server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/server.c b/runtime/server.c
index dd6a2bb..79e3b41 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -339,7 +339,8 @@ static struct gracht_message* get_in_buffer_mt(struct gracht_server* server)
 
 static void put_message_mt(struct gracht_server* server, struct gracht_message* message)
 {
-    gracht_arena_free(server->arena, message, server->allocationSize);
+    // release the entire block, it can be larger than what was requested
+    gracht_arena_free(server->arena, message, 0);
 }
 
 static int handle_packet(struct gracht_server* server, struct gracht_link* link)
-- 
2.43.0


From a938080a296ddc1d3198760e8c60105e5c1c3c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:36 +0000
Subject: [PATCH 05/57] fix: running out of receive buffers crashed the server
 or left its client lock held

---
 runtime/server.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/runtime/server.c b/runtime/server.c
index 79e3b41..cd4b4f2 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -332,6 +332,9 @@ static struct gracht_message* get_in_buffer_mt(struct gracht_server* server)
 {
     struct gracht_message* message;
     message = gracht_arena_allocate(server->arena, NULL, server->allocationSize);
+    if (!message) {
+        return NULL;
+    }
     message->server = server;
     message->index  = server->allocationSize;
     return message;
@@ -350,6 +353,11 @@ static int handle_packet(struct gracht_server* server, struct gracht_link* link)
     
     while (1) {
         struct gracht_message* message = server->ops->get_incoming_buffer(server);
+        if (!message) {
+            GRERROR(GRSTR("handle_packet ran out of receiving buffers"));
+            errno = ENOMEM;
+            return -1;
+        }
 
         status = link->ops.server.recv(link, message, 0);
         if (status) {
@@ -394,6 +402,7 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
         while (entry) {
             struct gracht_message* message = server->ops->get_incoming_buffer(server);
             if (!message) {
+                rwlock_r_unlock(&server->clients_lock);
                 GRERROR(GRSTR("handle_client_event ran out of receiving buffers"));
                 errno = ENOMEM;
                 return -1;
-- 
2.43.0


From eef2c6871dbb5e8cd05700858ce3048105cea54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:06 +0000
Subject: [PATCH 06/57] fix: requests were silently dropped when the queue of a
 worker was full

---
 runtime/queue.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/runtime/queue.c b/runtime/queue.c
index be6ca96..cc93307 100644
--- a/runtime/queue.c
+++ b/runtime/queue.c
@@ -58,6 +58,29 @@ static inline int capacity_remaining(struct gr_queue* queue)
     return queue->capacity - (queue->queue_index - queue->dequeue_index);
 }
 
+static int grow_queue(struct gr_queue* queue)
+{
+    unsigned int count    = queue->queue_index - queue->dequeue_index;
+    uintptr_t*   elements = malloc(sizeof(uintptr_t) * queue->capacity * 2);
+    unsigned int i;
+
+    if (!elements) {
+        errno = ENOMEM;
+        return -1;
+    }
+
+    for (i = 0; i < count; i++) {
+        elements[i] = queue->elements[(queue->dequeue_index + i) % queue->capacity];
+    }
+
+    free(queue->elements);
+    queue->elements      = elements;
+    queue->capacity     *= 2;
+    queue->dequeue_index = 0;
+    queue->queue_index   = count;
+    return 0;
+}
+
 int gr_queue_enqueue(struct gr_queue* queue, void* pointer)
 {
     unsigned int index;
@@ -67,8 +90,7 @@ int gr_queue_enqueue(struct gr_queue* queue, void* pointer)
         return -1;
     }
 
-    if (!capacity_remaining(queue)) {
-        errno = ENOENT;
+    if (!capacity_remaining(queue) && grow_queue(queue)) {
         return -1;
     }
 
-- 
2.43.0


From c4e6daf7a2caf4f271bd58cc4ce66c954edc38c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:37 +0000
Subject: [PATCH 07/57] fix: workers lost wakeups on shutdown and ran without a
 job after a spurious wakeup

---
 runtime/dispatch_generic.c | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/runtime/dispatch_generic.c b/runtime/dispatch_generic.c
index 3f76a4d..362ae7b 100644
--- a/runtime/dispatch_generic.c
+++ b/runtime/dispatch_generic.c
@@ -103,7 +103,9 @@ void gracht_worker_pool_destroy(struct gracht_worker_pool* pool)
 
     // destroy pool of workers
     for (i = 0; i < pool->worker_count; i++) {
+        mtx_lock(&pool->workers[i].sync_object);
         pool->workers[i].state = WORKER_SHUTDOWN_REQUEST;
+        mtx_unlock(&pool->workers[i].sync_object);
         cnd_signal(&pool->workers[i].signal);
 
         // wait for cleanup
@@ -175,20 +177,25 @@ static int worker_dowork(void* context)
     GRTRACE(GRSTR("worker_dowork: running"));
 
     worker = workerContext->worker;
-    worker->state = WORKER_ALIVE;
+    mtx_lock(&worker->sync_object);
+    if (worker->state == WORKER_STARTUP) {
+        worker->state = WORKER_ALIVE;
+    }
+    mtx_unlock(&worker->sync_object);
     while (1) {
         mtx_lock(&worker->sync_object);
-        job = gr_queue_dequeue(&worker->job_queue);
-        if (!job) {
-            cnd_wait(&worker->signal, &worker->sync_object);
-            if (worker->state == WORKER_SHUTDOWN_REQUEST) {
-                worker->state = WORKER_SHUTDOWN;
-                mtx_unlock(&worker->sync_object);
+        job = NULL;
+        while (worker->state != WORKER_SHUTDOWN_REQUEST) {
+            job = gr_queue_dequeue(&worker->job_queue);
+            if (job) {
                 break;
             }
-
-            job = gr_queue_dequeue(&worker->job_queue);
-            // assert(job_header != NULL);
+            cnd_wait(&worker->signal, &worker->sync_object);
+        }
+        if (!job) {
+            worker->state = WORKER_SHUTDOWN;
+            mtx_unlock(&worker->sync_object);
+            break;
         }
         mtx_unlock(&worker->sync_object);
 
@@ -196,12 +203,6 @@ static int worker_dowork(void* context)
         GRTRACE(GRSTR("worker_dowork: handling message"));
         server_invoke_action(workerContext->server, job);
         server_cleanup_message(workerContext->server, job);
-
-        // check again at exit of iteration
-        if (worker->state == WORKER_SHUTDOWN_REQUEST) {
-            worker->state = WORKER_SHUTDOWN;
-            break;
-        }
     }
     GRTRACE(GRSTR("worker_dowork: shutting down"));
 
-- 
2.43.0


From 356d5f4cb67762553a7c57e4af64b8db639ecd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:41 +0000
Subject: [PATCH 08/57] fix: the buffer stack handed out garbage and shared
 buffers when it was resized or used concurrently

---
 include/stack.h | 11 ++++----
 runtime/stack.c | 70 ++++++++++++++-----------------------------------
 2 files changed, 26 insertions(+), 55 deletions(-)

diff --git a/include/stack.h b/include/stack.h
index 3ae0581..0a8363c 100644
--- a/include/stack.h
+++ b/include/stack.h
@@ -14,19 +14,20 @@
  * You should have received a copy of the GNU General Public License
  * along with this program. If not, see <http://www.gnu.org/licenses/>.
  *
- * Lockless stack implementation
+ * Stack implementation, protected by a mutex as elements are shared between threads
  */
 
 #ifndef __GRACHT_STACK_H__
 #define __GRACHT_STACK_H__
 
-#include "gatomic.h"
+#include "thread_api.h"
 #include <stddef.h>
 
 struct stack {
-    atomic_uintptr_t elements;
-    atomic_uint      index;
-    size_t           count;
+    mtx_t  mutex;
+    void** elements;
+    size_t index;
+    size_t count;
 };
 
 int   stack_construct(struct stack* stack, size_t initialCount);
diff --git a/runtime/stack.c b/runtime/stack.c
index 7014364..f57949d 100644
--- a/runtime/stack.c
+++ b/runtime/stack.c
@@ -14,35 +14,28 @@
  * You should have received a copy of the GNU General Public License
  * along with this program. If not, see <http://www.gnu.org/licenses/>.
  *
- * Lockless stack implementation
+ * Stack implementation, protected by a mutex as elements are shared between threads
  */
 
 #include <errno.h>
 #include "stack.h"
-#include <stdint.h>
 #include <stdlib.h>
-#include <string.h>
-
-#ifdef _WIN32
-typedef uintptr_t uint_loaded_t;
-#else
-typedef unsigned int uint_loaded_t;
-#endif
 
 int stack_construct(struct stack* stack, size_t initialCount)
 {
-    uintptr_t space;
+    void** space;
     if (!stack || !initialCount) {
         errno = EINVAL;
         return -1;
     }
 
-    space = (uintptr_t)malloc(sizeof(uintptr_t) * initialCount);
+    space = malloc(sizeof(void*) * initialCount);
     if (!space) {
         errno = ENOMEM;
         return -1;
     }
 
+    mtx_init(&stack->mutex, mtx_plain);
     stack->elements = space;
     stack->index    = 0;
     stack->count    = initialCount;
@@ -55,71 +48,48 @@ void stack_destroy(struct stack* stack)
         return;
     }
 
-    free((void*)atomic_load(&stack->elements));
+    mtx_destroy(&stack->mutex);
+    free(stack->elements);
 }
 
-int stack_resize(struct stack* stack, size_t newSize)
+static int stack_resize(struct stack* stack, size_t newSize)
 {
-    uintptr_t original = atomic_load(&stack->elements);
-    uintptr_t resized  = (uintptr_t)malloc(sizeof(uintptr_t) * newSize);
-    int       result;
-
+    void** resized = realloc(stack->elements, sizeof(void*) * newSize);
     if (!resized) {
         errno = ENOMEM;
         return -1;
     }
 
-    memcpy((void*)resized, (const void*)original, sizeof(uintptr_t) * stack->count);
-    
-    result = atomic_compare_exchange_strong(&stack->elements, &original, resized);
-    if (!result) {
-        // try again, someone else beat us to it
-        free((void*)resized);
-        return 0;
-    }
-
-    stack->count = newSize;
+    stack->elements = resized;
+    stack->count    = newSize;
     return 0;
 }
 
 void stack_push(struct stack* stack, void* pointer)
 {
-    uint_loaded_t index;
-
     if (!stack || !pointer) {
         return;
     }
 
-perform_push:
-    index = atomic_fetch_add(&stack->index, 1);
-    if (index >= stack->count) {
-        if (stack_resize(stack, stack->count * 2)) {
-            return;
-        }
-        goto perform_push;
+    mtx_lock(&stack->mutex);
+    if (stack->index < stack->count || !stack_resize(stack, stack->count * 2)) {
+        stack->elements[stack->index++] = pointer;
     }
-
-    ((uintptr_t*)atomic_load(&stack->elements))[index] = (uintptr_t)pointer;
+    mtx_unlock(&stack->mutex);
 }
 
 void* stack_pop(struct stack* stack)
 {
-    uint_loaded_t index;
-    int           result;
+    void* element = NULL;
 
     if (!stack) {
         return NULL;
     }
 
-perform_pop:
-    index = atomic_load(&stack->index);
-    if (!index) {
-        return NULL;
-    }
-
-    result = atomic_compare_exchange_strong(&stack->index, &index, index - 1);
-    if (!result) {
-        goto perform_pop;
+    mtx_lock(&stack->mutex);
+    if (stack->index) {
+        element = stack->elements[--stack->index];
     }
-    return (void*)((uintptr_t*)atomic_load(&stack->elements))[index - 1];
+    mtx_unlock(&stack->mutex);
+    return element;
 }
-- 
2.43.0


From 38192ddbe48bc840af598a198e2cb99aaedce8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:12 +0000
Subject: [PATCH 09/57] fix: answering or notifying a client that is gone
 leaked the message buffer

---
 runtime/server.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index cd4b4f2..cc29e7c 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -655,11 +655,12 @@ int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t
         
         rwlock_r_unlock(&messageContext->server->clients_lock);
         link = get_link_by_conn(messageContext->server, messageContext->link);
-        if (!link) {
+        if (link) {
+            status = link->ops.server.send(link, messageContext, message);
+        } else {
             errno = ENODEV;
-            return -1;
+            status = -1;
         }
-        status = link->ops.server.send(link, messageContext, message);
     }
     else {
         status = entry->link->ops.server.send_client(entry->client, message, GRACHT_MESSAGE_BLOCK);
@@ -688,6 +689,7 @@ int gracht_server_send_event(gracht_server_t* server, gracht_conn_t client, grac
     clientEntry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = client });
     if (!clientEntry) {
         rwlock_r_unlock(&server->clients_lock);
+        stack_push(&server->bufferStack, message->data);
         errno = ENOENT;
         return -1;
     }
-- 
2.43.0


From 02d196abf782d53a69090b34fc949d2bc5f70c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:16 +0000
Subject: [PATCH 10/57] fix: sending to a peer that has disconnected killed the
 process with SIGPIPE

---
 runtime/link/socket/client.c    | 4 ++--
 runtime/link/socket/server.c    | 4 ++--
 runtime/link/socket/socket_os.h | 5 +++++
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index 79c1dbd..a22faa8 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -34,7 +34,7 @@ static int socket_link_send_stream(struct gracht_link_socket* link,
 {
     long byteCount;
     
-    byteCount = (long)send(link->base.connection, &message->data[0], message->index, 0);
+    byteCount = (long)send(link->base.connection, &message->data[0], message->index, MSG_NOSIGNAL);
     if ((uint32_t)byteCount != message->index) {
         GRERROR(GRSTR("link_client: failed to send message, bytes sent: %li, expected: %u (%i)"),
               byteCount, message->index, errno);
@@ -85,7 +85,7 @@ static int socket_link_send_packet(struct gracht_link_socket* link, struct grach
 
     GRTRACE(GRSTR("link_client: send message (%u)"), message->index);
 
-    byteCount = send(link->base.connection, &message->data[0], message->index, 0);
+    byteCount = send(link->base.connection, &message->data[0], message->index, MSG_NOSIGNAL);
     if (byteCount != message->index) {
         GRERROR(GRSTR("link_client: failed to send message, bytes sent: %u, expected: %u"),
               (uint32_t)byteCount, message->index);
diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 01ccb1f..e001b64 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -110,7 +110,7 @@ static int socket_link_send_client(struct socket_link_client* client,
 #endif
 
     GRTRACE(GRSTR("[socket_link_send] sending message"));
-    bytesWritten = send(client->base.handle, &message->data[0], message->index, socketFlags);
+    bytesWritten = send(client->base.handle, &message->data[0], message->index, socketFlags | MSG_NOSIGNAL);
     if (bytesWritten != message->index) {
         return -1;
     }
@@ -516,7 +516,7 @@ static int socket_link_send_packet(struct gracht_link_socket* link,
         return -1;
     }
     
-    bytesWritten = (long)send(link->base.connection, &message->data[0], message->index, MSG_WAITALL);
+    bytesWritten = (long)send(link->base.connection, &message->data[0], message->index, MSG_WAITALL | MSG_NOSIGNAL);
     if (bytesWritten != message->index) {
         GRERROR(GRSTR("link_server: failed to respond [%li/%i]"), bytesWritten, message->index);
         if (bytesWritten == -1) {
diff --git a/runtime/link/socket/socket_os.h b/runtime/link/socket/socket_os.h
index 48cc463..4d61a5e 100644
--- a/runtime/link/socket/socket_os.h
+++ b/runtime/link/socket/socket_os.h
@@ -144,6 +144,11 @@ static inline void __set_nonblocking_if_needed(gracht_conn_t socket, unsigned in
 
 #endif
 
+// a peer that has disconnected must be reported as an error, and not as a signal
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
 struct gracht_link_socket {
     struct gracht_link      base;
     int                     listen;
-- 
2.43.0


From ac323f86645c46d35ad3b5d2af707d4e0c975bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:25 +0000
Subject: [PATCH 11/57] fix: a message whose header arrived in parts was lost

---
 runtime/link/socket/client.c | 19 ++++++++++++++-----
 runtime/link/socket/server.c |  9 +++++++++
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index a22faa8..e554654 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -47,16 +47,25 @@ static int socket_link_send_stream(struct gracht_link_socket* link,
 static int socket_link_recv_stream(struct gracht_link_socket* link,
     struct gracht_buffer* message, unsigned int flags)
 {
-    size_t   bytesRead;
+    long     bytesRead;
     uint32_t missingData;
     
     GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message header"));
-    bytesRead = recv(link->base.connection, &message->data[0], GRACHT_MESSAGE_HEADER_SIZE, flags);
+    bytesRead = (long)recv(link->base.connection, &message->data[0], GRACHT_MESSAGE_HEADER_SIZE, flags);
+    if (bytesRead > 0 && bytesRead < GRACHT_MESSAGE_HEADER_SIZE) {
+        // only a part of the header has arrived, and that must not get lost
+        missingData = GRACHT_MESSAGE_HEADER_SIZE - (uint32_t)bytesRead;
+        if (recv(link->base.connection, &message->data[bytesRead], missingData, MSG_WAITALL) != (long)missingData) {
+            errno = (EPIPE);
+            return -1;
+        }
+        bytesRead = GRACHT_MESSAGE_HEADER_SIZE;
+    }
     if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
         if (bytesRead == 0) {
             errno = (ENODATA);
         }
-        else {
+        else if (errno != EAGAIN && errno != EWOULDBLOCK) {
             errno = (EPIPE);
         }
         return -1;
@@ -65,8 +74,8 @@ static int socket_link_recv_stream(struct gracht_link_socket* link,
     missingData = *((uint32_t*)&message->data[4]) - GRACHT_MESSAGE_HEADER_SIZE;
     if (missingData) {
         GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message payload"));
-        bytesRead = recv(link->base.connection, &message->data[GRACHT_MESSAGE_HEADER_SIZE], missingData, MSG_WAITALL);
-        if (bytesRead != missingData) {
+        bytesRead = (long)recv(link->base.connection, &message->data[GRACHT_MESSAGE_HEADER_SIZE], missingData, MSG_WAITALL);
+        if (bytesRead != (long)missingData) {
             // do not process incomplete requests
             GRERROR(GRSTR("[gracht_connection_recv_message] did not read full amount of bytes (%u, expected %u)"),
                   (uint32_t)bytesRead, missingData);
diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index e001b64..7b9621b 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -155,6 +155,15 @@ static int socket_link_recv_client(struct socket_link_client* client,
     }
 #else
     bytesRead = recv(client->base.handle, &context->payload[0], GRACHT_MESSAGE_HEADER_SIZE, socketFlags);
+    if (bytesRead > 0 && bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
+        // only a part of the header has arrived, and that must not get lost
+        intmax_t bytesMissing = GRACHT_MESSAGE_HEADER_SIZE - bytesRead;
+        if (recv(client->base.handle, &context->payload[bytesRead], (size_t)bytesMissing, MSG_WAITALL) != bytesMissing) {
+            errno = EPIPE;
+            return -1;
+        }
+        bytesRead = GRACHT_MESSAGE_HEADER_SIZE;
+    }
     if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
         if (bytesRead == 0) {
             errno = ENODATA;
-- 
2.43.0


From a42785f1666aec743a7f20f080a0609c9a11192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:30 +0000
Subject: [PATCH 12/57] fix: the announced length of a message was trusted when
 receiving from a stream

---
 runtime/link/socket/client.c |  9 +++++++++
 runtime/link/socket/server.c |  6 ++++++
 runtime/server.c             | 10 +++++++---
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index e554654..49ef8ae 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -72,6 +72,15 @@ static int socket_link_recv_stream(struct gracht_link_socket* link,
     }
     
     missingData = *((uint32_t*)&message->data[4]) - GRACHT_MESSAGE_HEADER_SIZE;
+    if (missingData > message->index - GRACHT_MESSAGE_HEADER_SIZE) {
+        // the stream cannot be trusted anymore once the length is invalid, so end it
+        GRERROR(GRSTR("[gracht_connection_recv_stream] message has invalid length %u"), *((uint32_t*)&message->data[4]));
+#ifndef _WIN32
+        shutdown(link->base.connection, SHUT_RDWR);
+#endif
+        errno = (EPIPE);
+        return -1;
+    }
     if (missingData) {
         GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message payload"));
         bytesRead = (long)recv(link->base.connection, &message->data[GRACHT_MESSAGE_HEADER_SIZE], missingData, MSG_WAITALL);
diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 7b9621b..9d938a2 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -175,6 +175,12 @@ static int socket_link_recv_client(struct socket_link_client* client,
     GRTRACE(GRSTR("socket_link_recv_client message id %u, length of message %u"), 
         *((uint32_t*)&context->payload[0]), *((uint32_t*)&context->payload[4]));
     missingData = *((uint32_t*)&context->payload[4]) - GRACHT_MESSAGE_HEADER_SIZE;
+    if (missingData > context->index - GRACHT_MESSAGE_HEADER_SIZE) {
+        // the stream cannot be trusted anymore once the length is invalid, so drop the client
+        GRERROR(GRSTR("socket_link_recv_client message has invalid length %u"), *((uint32_t*)&context->payload[4]));
+        errno = (EFAULT);
+        return -1;
+    }
     if (missingData) {
         GRTRACE(GRSTR("socket_link_recv_client reading message payload"));
         bytesRead = recv(client->base.handle, &context->payload[GRACHT_MESSAGE_HEADER_SIZE], 
diff --git a/runtime/server.c b/runtime/server.c
index cc29e7c..50c0a6b 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -293,7 +293,7 @@ static struct gracht_message* get_in_buffer_st(struct gracht_server* server)
 {
     struct gracht_message* message = (struct gracht_message*)server->recvBuffer;
     message->server = server;
-    message->index  = server->allocationSize;
+    message->index  = (uint32_t)(server->allocationSize - sizeof(struct gracht_message)); // capacity of the payload
     return message;
 }
 
@@ -322,8 +322,12 @@ static void dispatch_mt(struct gracht_server* server, struct gracht_message* mes
     else {
         uint32_t messageLength  = *((uint32_t*)&message->payload[message->index + MSG_INDEX_LEN]);
         uint32_t metaDatalength = sizeof(struct gracht_message) + message->index;
+        size_t   excessLength   = server->allocationSize - messageLength - metaDatalength;
 
-        gracht_arena_free(server->arena, message, server->allocationSize - messageLength - metaDatalength);
+        // freeing zero bytes would release the entire message
+        if (excessLength) {
+            gracht_arena_free(server->arena, message, excessLength);
+        }
         gracht_worker_pool_dispatch(server->worker_pool, message);
     }
 }
@@ -336,7 +340,7 @@ static struct gracht_message* get_in_buffer_mt(struct gracht_server* server)
         return NULL;
     }
     message->server = server;
-    message->index  = server->allocationSize;
+    message->index  = (uint32_t)(server->allocationSize - sizeof(struct gracht_message)); // capacity of the payload
     return message;
 }
 
-- 
2.43.0


From 68c9ecfb992cb05df3ff8dd6f95b6a4e3e9ce4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:40 +0000
Subject: [PATCH 13/57] fix: responses and events of packet links were not sent
 to the address of the client

---
 runtime/link/socket/server.c | 51 ++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 9d938a2..0213063 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -31,9 +31,16 @@
 
 #include "socket_os.h"
 
+// the address of the sender precedes each message received on a packet link
+struct socket_link_sender {
+    struct sockaddr_storage address;
+    socklen_t               address_length;
+};
+
 struct socket_link_client {
     struct gracht_server_client base;
     struct sockaddr_storage     address;
+    socklen_t                   address_length;
     gracht_conn_t               socket;
     gracht_conn_t               link;
     int                         streaming;
@@ -110,7 +117,13 @@ static int socket_link_send_client(struct socket_link_client* client,
 #endif
 
     GRTRACE(GRSTR("[socket_link_send] sending message"));
-    bytesWritten = send(client->base.handle, &message->data[0], message->index, socketFlags | MSG_NOSIGNAL);
+    if (client->streaming) {
+        bytesWritten = send(client->base.handle, &message->data[0], message->index, socketFlags | MSG_NOSIGNAL);
+    } else {
+        // the handle of a connection-less client is not a socket
+        bytesWritten = sendto(client->socket, &message->data[0], message->index, socketFlags | MSG_NOSIGNAL,
+            (const struct sockaddr*)&client->address, client->address_length);
+    }
     if (bytesWritten != message->index) {
         return -1;
     }
@@ -217,7 +230,7 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
     struct socket_link_client** clientOut)
 {
     struct socket_link_client* client;
-    struct sockaddr_storage*   address;
+    struct socket_link_sender* sender;
     
     if (!link || !message || !clientOut) {
         errno = (EINVAL);
@@ -235,8 +248,9 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
     client->socket      = link->base.connection;
     client->streaming   = 0;
 
-    address = (struct sockaddr_storage*)&message->payload[0];
-    memcpy(&client->address, address, (size_t)link->address_length);
+    sender = (struct socket_link_sender*)&message->payload[0];
+    memcpy(&client->address, &sender->address, sizeof(struct sockaddr_storage));
+    client->address_length = sender->address_length;
     
     *clientOut = client;
     return 0;
@@ -244,7 +258,7 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
 
 static int socket_link_destroy_client(struct socket_link_client* client, gracht_handle_t set_handle)
 {
-    int status;
+    int status = 0;
     
     if (!client) {
         errno = (EINVAL);
@@ -257,8 +271,8 @@ static int socket_link_destroy_client(struct socket_link_client* client, gracht_
         if (status) {
             GRWARNING(GRSTR("socket_link_destroy_client failed to remove client socket from set_handle"));
         }
+        status = close(client->base.handle);
     }
-    status = close(client->base.handle);
     free(client);
     return status;
 }
@@ -444,9 +458,9 @@ static int socket_link_accept(
 static int socket_link_recv_packet(struct gracht_link_socket* link, 
     struct gracht_message* context, unsigned int flags)
 {
-    socklen_t    addrlen     = link->address_length;
-    char*        base        = (char*)&context->payload[addrlen];
-    size_t       len         = context->index - addrlen;
+    struct socket_link_sender* sender = (struct socket_link_sender*)&context->payload[0];
+    char*        base        = (char*)&context->payload[sizeof(struct socket_link_sender)];
+    size_t       len         = context->index - sizeof(struct socket_link_sender);
     unsigned int socketFlags = get_socket_flags(flags);
     uint32_t     addressCrc;
 
@@ -470,7 +484,8 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
 
     // store initial bytes received (header) and store the address
     memcpy(base, &link->buffer[0], overlappedLength);
-    memcpy(&context->payload[0], &link->buffer[GRACHT_MESSAGE_HEADER_SIZE], link->recvLength);
+    memcpy(&sender->address, &link->buffer[GRACHT_MESSAGE_HEADER_SIZE], link->recvLength);
+    sender->address_length = link->recvLength;
     // link->recvLength should == link->address_length
 
     // read the rest of the message
@@ -485,8 +500,9 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
 #else
     // Packets are atomic, either the full packet is there, or none is. So avoid
     // the use of MSG_WAITALL here.
+    sender->address_length = sizeof(struct sockaddr_storage);
     intmax_t bytesRead = (intmax_t)recvfrom(link->base.connection, base, len, 
-        socketFlags, (struct sockaddr*)&context->payload[0], &addrlen);
+        socketFlags, (struct sockaddr*)&sender->address, &sender->address_length);
     if (bytesRead <= 0) {
         if (bytesRead == 0) {
             errno = (ENODATA);
@@ -495,16 +511,16 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
     }
 #endif
 
-    addressCrc = crc32_generate((const unsigned char*)&context->payload[0], (size_t)addrlen);
+    addressCrc = crc32_generate((const unsigned char*)&sender->address, (size_t)sender->address_length);
     GRTRACE(GRSTR("socket_link_recv_packet read [%u/%u] addr bytes, %p"),
-            addrlen, link->address_length, &context->payload[0]);
+            sender->address_length, link->address_length, &context->payload[0]);
     GRTRACE(GRSTR("socket_link_recv_packet read %lu bytes"), bytesRead);
 
     // ->server is set by server
     context->link   = link->base.connection;
     context->client = (int)addressCrc;
-    context->index  = addrlen;
-    context->size   = (uint32_t)bytesRead + (uint32_t)addrlen;
+    context->index  = sizeof(struct socket_link_sender);
+    context->size   = (uint32_t)bytesRead + (uint32_t)sizeof(struct socket_link_sender);
 
 #ifdef _WIN32
     // queue up another read
@@ -523,15 +539,16 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
 static int socket_link_send_packet(struct gracht_link_socket* link,
     struct gracht_message* messageContext, struct gracht_buffer* message)
 {
+    struct socket_link_sender* sender = (struct socket_link_sender*)&messageContext->payload[0];
     long bytesWritten;
-    (void)messageContext;
 
     if (link->base.type != gracht_link_packet_based) {
         errno = ENOSYS;
         return -1;
     }
     
-    bytesWritten = (long)send(link->base.connection, &message->data[0], message->index, MSG_WAITALL | MSG_NOSIGNAL);
+    bytesWritten = (long)sendto(link->base.connection, &message->data[0], message->index, MSG_WAITALL | MSG_NOSIGNAL,
+        (const struct sockaddr*)&sender->address, sender->address_length);
     if (bytesWritten != message->index) {
         GRERROR(GRSTR("link_server: failed to respond [%li/%i]"), bytesWritten, message->index);
         if (bytesWritten == -1) {
-- 
2.43.0


From 1307c44b64ceb862bcc22dd96dde76217945374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:10 +0000
Subject: [PATCH 14/57] fix: truncated and inconsistent packets were executed
 as requests

---
 runtime/link/socket/server.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 0213063..515b322 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -502,13 +502,22 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
     // the use of MSG_WAITALL here.
     sender->address_length = sizeof(struct sockaddr_storage);
     intmax_t bytesRead = (intmax_t)recvfrom(link->base.connection, base, len, 
-        socketFlags, (struct sockaddr*)&sender->address, &sender->address_length);
+        socketFlags | MSG_TRUNC, (struct sockaddr*)&sender->address, &sender->address_length);
     if (bytesRead <= 0) {
         if (bytesRead == 0) {
             errno = (ENODATA);
         }
         return -1;
     }
+    
+    // a packet must contain exactly one message, otherwise it is dropped. With MSG_TRUNC we are told
+    // the actual length of the packet.
+    if (bytesRead < GRACHT_MESSAGE_HEADER_SIZE || bytesRead > (intmax_t)len ||
+        bytesRead != (intmax_t)*((uint32_t*)&base[4])) {
+        GRERROR(GRSTR("socket_link_recv_packet dropping malformed packet of %li bytes"), (long)bytesRead);
+        errno = (EBADMSG);
+        return -1;
+    }
 #endif
 
     addressCrc = crc32_generate((const unsigned char*)&sender->address, (size_t)sender->address_length);
-- 
2.43.0


From 8f53914b1303550161b53fe099ba87eecf69ab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:14 +0000
Subject: [PATCH 15/57] fix: packet clients truncated large messages and
 accepted malformed packets

---
 runtime/link/socket/client.c | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index 49ef8ae..7a1e4b5 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -115,27 +115,23 @@ static int socket_link_send_packet(struct gracht_link_socket* link, struct grach
 
 static int socket_link_recv_packet(struct gracht_link_socket* link, struct gracht_buffer* message, unsigned int flags)
 {
-    socklen_t addrlen = link->address_length;
-    char*     base    = &message->data[addrlen];
-    size_t    len     = message->index - addrlen;
-    long      bytes_read;
-    
-    message->index = addrlen;
+    long bytes_read;
     
     // Packets are atomic, either the full packet is there, or none is. So avoid
-    // the use of MSG_WAITALL here.
+    // the use of MSG_WAITALL here. The address is not stored as the socket is connected, so that
+    // messages of the maximum size fit. Packets that do not contain exactly one message are dropped.
     GRTRACE(GRSTR("[gracht_connection_recv_stream] reading full message"));
-    bytes_read = (long)recvfrom(link->base.connection, base, len, flags, 
-        (struct sockaddr*)&message->data[0], &addrlen);
-    if (bytes_read < GRACHT_MESSAGE_HEADER_SIZE) {
-        if (bytes_read == 0) {
-            errno = (ENODATA);
-        }
-        else {
-            errno = (EPIPE);
+    do {
+        bytes_read = (long)recv(link->base.connection, &message->data[0], message->index, flags);
+        if (bytes_read < 0) {
+            if (errno != EAGAIN && errno != EWOULDBLOCK) {
+                errno = (EPIPE);
+            }
+            return -1;
         }
-        return -1;
-    }
+    } while (bytes_read < GRACHT_MESSAGE_HEADER_SIZE || bytes_read != (long)*((uint32_t*)&message->data[4]));
+
+    message->index = 0;
     return 0;
 }
 
-- 
2.43.0


From 80affca8e0f08f60b486cc90eea60649e308ce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:18 +0000
Subject: [PATCH 16/57] fix: local packet clients had no address to receive
 responses on

---
 runtime/link/socket/client.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index 7a1e4b5..05065b9 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -145,6 +145,19 @@ static gracht_conn_t socket_link_connect(struct gracht_link_socket* link)
         return -1;
     }
     
+#ifdef __linux__
+    if (link->domain == AF_LOCAL && type == SOCK_DGRAM) {
+        // local sockets have no address to receive on unless bound, let the system pick one
+        sa_family_t family = AF_LOCAL;
+        if (bind(link->base.connection, (const struct sockaddr*)&family, sizeof(family))) {
+            GRERROR(GRSTR("client_link: failed to bind socket"));
+            close(link->base.connection);
+            link->base.connection = GRACHT_CONN_INVALID;
+            return -1;
+        }
+    }
+#endif
+
     int status = connect(link->base.connection, 
         (const struct sockaddr*)&link->address,
         link->address_length);
-- 
2.43.0


From 23d70fc425be8b38f831711836f588a898f99f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:43 +0000
Subject: [PATCH 17/57] fix: a late response was delivered to another client
 when the connection handle was reused

---
 include/gracht/types.h |  1 +
 runtime/server.c       | 18 +++++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/gracht/types.h b/include/gracht/types.h
index 9b38682..414d083 100644
--- a/include/gracht/types.h
+++ b/include/gracht/types.h
@@ -114,6 +114,7 @@ struct gracht_message {
     gracht_conn_t    client;  // client context on the link
     uint32_t         size;    // size of the payload
     uint32_t         index;   // used internally for payload storage
+    uint32_t         session; // used internally to tell clients with the same handle apart
     uint8_t          payload[]; // payload follows this message header
 };
 
diff --git a/runtime/server.c b/runtime/server.c
index 50c0a6b..fffa989 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -42,6 +42,7 @@
 
 struct client_wrapper {
     gracht_conn_t                handle;
+    uint32_t                     session; // handles are reused, sessions are not. 0 for connection-less
     struct gracht_link*          link;
     struct gracht_server_client* client;
 };
@@ -83,6 +84,7 @@ typedef struct gracht_server {
     struct rwlock                  protocols_lock;
     gr_hashtable_t                 clients;
     struct rwlock                  clients_lock;
+    uint32_t                       session;
     struct link_table              link_table;
 } gracht_server_t;
 
@@ -275,8 +277,12 @@ static int handle_connection(struct gracht_server* server, struct gracht_link* l
     memset(&client->subscriptions[0], 0xFF, sizeof(client->subscriptions));
     
     rwlock_w_lock(&server->clients_lock);
+    if (!++server->session) {
+        server->session = 1;
+    }
     gr_hashtable_set(&server->clients, &(struct client_wrapper) { 
         .handle = client->handle,
+        .session = server->session,
         .link = link,
         .client = client
     });
@@ -294,6 +300,7 @@ static struct gracht_message* get_in_buffer_st(struct gracht_server* server)
     struct gracht_message* message = (struct gracht_message*)server->recvBuffer;
     message->server = server;
     message->index  = (uint32_t)(server->allocationSize - sizeof(struct gracht_message)); // capacity of the payload
+    message->session = 0;
     return message;
 }
 
@@ -341,6 +348,7 @@ static struct gracht_message* get_in_buffer_mt(struct gracht_server* server)
     }
     message->server = server;
     message->index  = (uint32_t)(server->allocationSize - sizeof(struct gracht_message)); // capacity of the payload
+    message->session = 0;
     return message;
 }
 
@@ -431,6 +439,7 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
                 return 0;
             }
 
+            message->session = entry->session;
             server->ops->dispatch(server, message);
         }
         rwlock_r_unlock(&server->clients_lock);
@@ -666,6 +675,12 @@ int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t
             status = -1;
         }
     }
+    else if (entry->session != messageContext->session) {
+        // the client that sent the request is gone, and the handle now belongs to someone else
+        rwlock_r_unlock(&messageContext->server->clients_lock);
+        errno = ENODEV;
+        status = -1;
+    }
     else {
         status = entry->link->ops.server.send_client(entry->client, message, GRACHT_MESSAGE_BLOCK);
         rwlock_r_unlock(&messageContext->server->clients_lock);
@@ -874,7 +889,8 @@ void gracht_control_subscribe_invocation(const struct gracht_message* message, c
             return;
         }
 
-        newEntry.handle = message->client;
+        newEntry.handle  = message->client;
+        newEntry.session = 0;
 
         // this does not have to be serialized with the above read lock due to the fact that all
         // write-locks are only acquired by this thread. So any changes made are only the ones we make
-- 
2.43.0


From 92b554387640751d249f25627147cbce2d7d7c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:09 +0000
Subject: [PATCH 18/57] fix: a late error was delivered to another client when
 the connection handle was reused

---
 runtime/server.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/runtime/server.c b/runtime/server.c
index fffa989..c3e4169 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -539,8 +539,16 @@ void server_invoke_action(struct gracht_server* server, struct gracht_message* r
     function = get_protocol_action(&server->protocols, protocol, action);
     rwlock_r_unlock(&server->protocols_lock);
     if (!function) {
+        struct client_wrapper* entry;
         GRWARNING(GRSTR("server_invoke_action failed to invoke server action"));
-        gracht_control_event_error_single(server, recvMessage->client, messageId, ENOENT);
+
+        // only notify the client that sent the request, the handle might have been reused since
+        rwlock_r_lock(&server->clients_lock);
+        entry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = recvMessage->client });
+        if (entry && entry->session == recvMessage->session) {
+            gracht_control_event_error_single(server, recvMessage->client, messageId, ENOENT);
+        }
+        rwlock_r_unlock(&server->clients_lock);
         return;
     }
 
-- 
2.43.0


From ad583db6a8c27bca4e19c1ee2c7059372d710f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:35 +0000
Subject: [PATCH 19/57] fix: error notifications were dropped when the client
 was slow to read

---
 runtime/control.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/control.c b/runtime/control.c
index 0b1d22a..e27cd36 100644
--- a/runtime/control.c
+++ b/runtime/control.c
@@ -103,7 +103,7 @@ int gracht_control_event_error_single(gracht_server_t* server, const gracht_conn
     serialize_uint8_t(&__buffer, MESSAGE_FLAG_EVENT);
     serialize_uint32_t(&__buffer, messageId);
     serialize_int(&__buffer, errorCode);
-    __status = gracht_server_send_event(server, client, &__buffer, 0);
+    __status = gracht_server_send_event(server, client, &__buffer, GRACHT_MESSAGE_BLOCK);
     return __status;
 }
 
-- 
2.43.0


From b1e08771e9d936645ddbaf2dbaca75baaa8a72c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:03 +0000
Subject: [PATCH 20/57] fix: events of protocols unknown to the client were
 reported as errors instead of being ignored

---
 runtime/client.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/client.c b/runtime/client.c
index 841eaa6..23238be 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -183,7 +183,9 @@ static int __invoke_action(gracht_client_t* client, struct gracht_buffer* messag
 
     function = get_protocol_action(&client->protocols, protocol, action);
     if (!function) {
-        return -1;
+        // events of protocols that are not registered with the client are ignored
+        GRTRACE(GRSTR("__invoke_action ignoring event %u:%u"), protocol, action);
+        return 0;
     }
 
     message->index += GRACHT_MESSAGE_HEADER_SIZE;
-- 
2.43.0


From 36ad7194453aacac4380407a1b8164028fad8bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:07 +0000
Subject: [PATCH 21/57] fix: responses nobody waits for leaked their buffer,
 and repeated ones replaced the result of a call

---
 runtime/client.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index 23238be..4da3772 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -208,7 +208,7 @@ static int __handle_response(
                 .id = GB_MSG_ID(buffer)
             }
     );
-    if (!descriptor) {
+    if (!descriptor || MESSAGE_STATUS_EXECUTED(descriptor->status)) {
         mtx_unlock(&client->messages_lock);
         // what the heck?
         GRERROR(GRSTR("[gracht_client_wait_message] no-one was listening for message %u"), GB_MSG_ID(buffer));
@@ -312,6 +312,8 @@ listenForMessage:
     } else if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_RESPONSE) {
         status = __handle_response(client, &buffer);
         if (status) {
+            gracht_arena_free(client->arena, buffer.data, 0);
+            buffer.data = NULL;
             goto listenForMessage;
         }
 
@@ -769,7 +771,7 @@ void gracht_control_error_invocation(gracht_client_t* client, const uint32_t mes
                 .id = messageId
             }
     );
-    if (!descriptor) {
+    if (!descriptor || MESSAGE_STATUS_EXECUTED(descriptor->status)) {
         mtx_unlock(&client->messages_lock);
         // what the heck?
         GRERROR(GRSTR("gracht_control_error_invocation no-one was listening for message %u"), messageId);
-- 
2.43.0


From a8be447e8b2419918b4627528e172c325280f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:11 +0000
Subject: [PATCH 22/57] fix: asking for the result of a call in progress lost
 its response

---
 runtime/client.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index 4da3772..fe08b00 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -525,7 +525,7 @@ int gracht_client_get_status_buffer(
     
     // guard against already checked
     mtx_lock(&client->messages_lock);
-    descriptor = gr_hashtable_remove(
+    descriptor = gr_hashtable_get(
             &client->messages,
             &(struct gracht_message_descriptor) {
                     .id = context->message_id
@@ -540,12 +540,22 @@ int gracht_client_get_status_buffer(
     status = descriptor->status;
     buffer->data = descriptor->buffer.data;
     buffer->index = descriptor->buffer.index;
+
+    // the call must be kept untill it has been executed, otherwise its response would be lost
+    if (MESSAGE_STATUS_EXECUTED(status)) {
+        gr_hashtable_remove(
+                &client->messages,
+                &(struct gracht_message_descriptor) {
+                        .id = context->message_id
+                }
+        );
+    }
     mtx_unlock(&client->messages_lock);
 
     // immediately cleanup the buffer if an error has ocurred
-    if (descriptor->status == GRACHT_MESSAGE_ERROR) {
-        if (descriptor->buffer.data) {
-            gracht_arena_free(client->arena, descriptor->buffer.data, 0);
+    if (status == GRACHT_MESSAGE_ERROR) {
+        if (buffer->data) {
+            gracht_arena_free(client->arena, buffer->data, 0);
         }
     }
     return status;
-- 
2.43.0


From c727de183a815f1debf8fe05c6bad20864207e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:15 +0000
Subject: [PATCH 23/57] fix: shutting down a client that was never connected
 leaked its link

---
 runtime/client.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/client.c b/runtime/client.c
index fe08b00..0ba684b 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -645,6 +645,7 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
     goto exit;
     
 error:
+    client->link = NULL; // ownership stays with the caller
     gracht_client_shutdown(client);
     status = -1;
 
@@ -679,7 +680,8 @@ void gracht_client_shutdown(gracht_client_t* client)
         return;
     }
     
-    if (client->iod != GRACHT_CONN_INVALID) {
+    // the link is owned by the client, whether or not it was connected
+    if (client->link) {
         client->link->ops.client.destroy(client->link);
     }
 
-- 
2.43.0


From 214909ec25e5f62c830cc4cbd39fa85b4b7402ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:33 +0000
Subject: [PATCH 24/57] fix: client waits lost wakeups, blocked on responses
 already received, hung when the connection was lost, and waited for all calls
 in any mode

---
 runtime/client.c | 427 +++++++++++++++--------------------------------
 1 file changed, 132 insertions(+), 295 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index 0ba684b..4e91387 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -39,32 +39,16 @@
 // On recieving:
 // N+M buffers. One for each event received and for each call in air
 
-struct gracht_message_awaiter {
-    uint32_t      id;
-    unsigned int  flags;
-    cnd_t         event;
-    mtx_t         mutex;
-    int           current_count;
-    int           count;
-};
-
-struct gracht_message_awaiter_entry {
-    uint32_t                       id;
-    struct gracht_message_awaiter* awaiter;
-};
-
 // descriptor | message | params
 struct gracht_message_descriptor {
     uint32_t        id;
     int             status;
-    uint32_t        awaiter_id;
     gracht_buffer_t buffer;
 };
 
 typedef struct gracht_client {
     gracht_conn_t        iod;
     uint32_t             current_message_id;
-    uint32_t             current_awaiter_id;
     struct gracht_link*  link;
     struct gracht_arena* arena;
     int                  max_message_size;
@@ -74,9 +58,9 @@ typedef struct gracht_client {
     gr_hashtable_t       protocols;
     gr_hashtable_t       messages;
     mtx_t                messages_lock;
-    gr_hashtable_t       awaiters;
-    mtx_t                awaiters_lock;
-    mtx_t                wait_lock;
+    cnd_t                messages_event; // a call was executed, receiving was set to 0 or connection_lost was set
+    int                  receiving;
+    int                  connection_lost;
 } gracht_client_t;
 
 #define MESSAGE_STATUS_EXECUTED(status) (status == GRACHT_MESSAGE_ERROR || status == GRACHT_MESSAGE_COMPLETED)
@@ -89,12 +73,8 @@ GRACHTAPI int gracht_client_invoke(gracht_client_t*, struct gracht_message_conte
 
 // static methods
 static uint32_t get_message_id(gracht_client_t*);
-static uint32_t get_awaiter_id(gracht_client_t*);
-static void     mark_awaiters(gracht_client_t*, uint32_t);
 static uint64_t message_hash(const void* element);
 static int      message_cmp(const void* element1, const void* element2);
-static uint64_t awaiter_hash(const void* element);
-static int      awaiter_cmp(const void* element1, const void* element2);
 
 static int __add_message(
         gracht_client_t*                   client,
@@ -198,7 +178,6 @@ static int __handle_response(
         struct gracht_buffer* buffer)
 {
     struct gracht_message_descriptor* descriptor;
-    uint32_t                          awaiterID;
     GRTRACE(GRSTR("__handle_response()"));
 
     mtx_lock(&client->messages_lock);
@@ -219,196 +198,148 @@ static int __handle_response(
     descriptor->buffer.data  = buffer->data;
     descriptor->buffer.index = buffer->index + GRACHT_MESSAGE_HEADER_SIZE;
     descriptor->status = GRACHT_MESSAGE_COMPLETED;
-    awaiterID = descriptor->awaiter_id;
+    cnd_broadcast(&client->messages_event);
     mtx_unlock(&client->messages_lock);
-
-    // iterate awaiters and mark those that contain this message
-    mark_awaiters(client, awaiterID);
     return 0;
 }
 
-int gracht_client_wait_message(
+// must be called with messages_lock held
+static int __is_executed(
         gracht_client_t*               client,
-        struct gracht_message_context* context,
-        unsigned int                   flags)
+        struct gracht_message_context* context)
 {
-    struct gracht_buffer buffer = { 0 };
-    uint32_t             messageId = 0;
-    uint8_t              messageFlags;
-    int                  status;
-    GRTRACE(GRSTR("gracht_client_wait_message()"));
-
-    if (!client) {
-        errno = (EINVAL);
-        return -1;
-    }
-
-    // We must acquire hold of the client mutex as the mutex must be thread-safe in case
-    // of multiple calling threads. Only one thread can listen for client events at a time, and that
-    // means all other threads must queue up and wait for the thread that listens currently.
-listenForMessage:
-    // check message status
-    if (context) {
-        struct gracht_message_descriptor* descriptor;
+    struct gracht_message_descriptor* descriptor = gr_hashtable_get(
+            &client->messages,
+            &(struct gracht_message_descriptor) {
+                    .id = context->message_id
+            }
+    );
+    // a message that does not exist has already been handled
+    return descriptor == NULL || MESSAGE_STATUS_EXECUTED(descriptor->status);
+}
 
-        mtx_lock(&client->messages_lock);
-        descriptor = gr_hashtable_get(
-                &client->messages,
-                &(struct gracht_message_descriptor) {
-                        .id = context->message_id
-                }
-        );
-        if (!descriptor) {
-            mtx_unlock(&client->messages_lock);
-            errno = ENOENT;
-            return -1;
-        }
-        if (descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
-            mtx_unlock(&client->messages_lock);
-            return 0;
-        }
-        mtx_unlock(&client->messages_lock);
+// must be called with messages_lock held
+static int __is_await_done(
+        gracht_client_t*                client,
+        struct gracht_message_context** contexts,
+        int                             contextCount,
+        unsigned int                    flags)
+{
+    int executed = 0;
+    for (int i = 0; i < contextCount; i++) {
+        executed += __is_executed(client, contexts[i]);
     }
+    return (flags & GRACHT_AWAIT_ALL) ? executed == contextCount : executed > 0;
+}
 
-    if (mtx_trylock(&client->wait_lock) != thrd_success) {
-        if (!(flags & GRACHT_MESSAGE_BLOCK)) {
-            errno = EBUSY;
-            return -1;
-        }
-
-        if (mtx_lock(&client->wait_lock) != thrd_success) {
-            return -1;
-        }
-    }
+// Receives and handles one message, returns 1 if the message was one that nobody waits for. Must be called with messages_lock held and receiving set to 0. Only one
+// thread can receive at a time, this is guarded by receiving as the lock is released while waiting for a message.
+static int __receive_message(
+        gracht_client_t* client,
+        unsigned int     flags)
+{
+    struct gracht_buffer buffer;
+    uint8_t              messageType;
+    int                  isEvent = 0;
+    int                  status;
+    int                  error;
 
-    // initialize buffer, after this point NO returning, only jump to listenOrExit
-    buffer.data = gracht_arena_allocate(client->arena, NULL, client->max_message_size);
+    buffer.data  = gracht_arena_allocate(client->arena, NULL, client->max_message_size);
     buffer.index = client->max_message_size;
-
     if (!buffer.data) {
-        mtx_unlock(&client->wait_lock);
         // out of memory. client should handle messages
         errno = ENOMEM;
-        status = -1;
-        goto listenOrExit;
-    }
-
-    status = client->link->ops.client.recv(client->link, &buffer, flags);
-    mtx_unlock(&client->wait_lock);
-    if (status) {
-        // In case of any recieving errors we must exit immediately
-        goto listenOrExit;
+        return -1;
     }
 
-    messageFlags = GB_MSG_FLG(&buffer);
+    client->receiving = 1;
+    mtx_unlock(&client->messages_lock);
 
-    // If the message is not an event, then do not invoke any actions. In any case if a context is provided
-    // we expect the caller wanting to listen for that specific message. That means any incoming event and/or
-    // response we recieve should be for that, or we should keep waiting.
-    GRTRACE(GRSTR("[gracht] [client] message received %u - %u:%u"),
-            messageFlags, GB_MSG_SID(&buffer), GB_MSG_AID(&buffer));
-    if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_EVENT) {
-        status = __invoke_action(client, &buffer);
-    } else if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_RESPONSE) {
-        status = __handle_response(client, &buffer);
-        if (status) {
-            gracht_arena_free(client->arena, buffer.data, 0);
-            buffer.data = NULL;
-            goto listenForMessage;
+    status = client->link->ops.client.recv(client->link, &buffer, flags);
+    error  = errno;
+    if (!status) {
+        messageType = MESSAGE_FLAG_TYPE(GB_MSG_FLG(&buffer));
+        GRTRACE(GRSTR("[gracht] [client] message received %u - %u:%u"),
+                messageType, GB_MSG_SID(&buffer), GB_MSG_AID(&buffer));
+
+        // Everything that completes a call must be handled before another thread is allowed to
+        // receive, otherwise that thread could end up waiting for a message that was already received
+        if (messageType == MESSAGE_FLAG_RESPONSE) {
+            if (__handle_response(client, &buffer)) {
+                status = 1;
+            } else {
+                // the buffer is now owned by the message, and is freed when the status is retrieved
+                buffer.data = NULL;
+            }
+        } else if (messageType == MESSAGE_FLAG_EVENT) {
+            if (GB_MSG_SID(&buffer) == gracht_control_client_protocol.id) {
+                __invoke_action(client, &buffer);
+            } else {
+                isEvent = 1;
+            }
         }
+    }
 
-        // set message id handled
-        messageId = GB_MSG_ID(&buffer);
+    mtx_lock(&client->messages_lock);
+    client->receiving       = 0;
+    client->connection_lost = status < 0 && error != EAGAIN && error != EWOULDBLOCK;
+    cnd_broadcast(&client->messages_event);
 
-        // zero the buffer pointer, so it does not get freed, freeing is now handled by
-        // the awaiter
-        buffer.data = NULL;
+    if (isEvent) {
+        // event handlers are allowed to use the client
+        mtx_unlock(&client->messages_lock);
+        __invoke_action(client, &buffer);
+        mtx_lock(&client->messages_lock);
     }
 
-listenOrExit:
     if (buffer.data) {
         gracht_arena_free(client->arena, buffer.data, 0);
     }
-
-    if (context) {
-        // In case a context was provided the meaning is that we should wait
-        // for a specific message. Make sure that the message we've handled were
-        // the one that was requested.
-        if (messageId != 0 && context->message_id != messageId) {
-            goto listenForMessage;
-        }
-    }
+    errno = error;
     return status;
 }
 
-static struct gracht_message_awaiter* __awaiter_new(
-        gracht_client_t* client,
-        unsigned int     flags,
-        int              contextCount)
-{
-    struct gracht_message_awaiter* awaiter;
-
-    awaiter = malloc(sizeof(struct gracht_message_awaiter));
-    if (!awaiter) {
-        return NULL;
-    }
-
-    awaiter->id            = get_awaiter_id(client);
-    awaiter->flags         = flags;
-    awaiter->count         = contextCount;
-    awaiter->current_count = 0;
-    cnd_init(&awaiter->event);
-    mtx_init(&awaiter->mutex, mtx_plain);
-    return awaiter;
-}
-
-static inline void __await_add(
+int gracht_client_wait_message(
         gracht_client_t*               client,
-        struct gracht_message_awaiter* awaiter)
+        struct gracht_message_context* context,
+        unsigned int                   flags)
 {
-    mtx_lock(&client->awaiters_lock);
-    gr_hashtable_set(&client->awaiters, &(struct gracht_message_awaiter_entry) {
-        .id = awaiter->id,
-        .awaiter = awaiter
-    });
-    mtx_unlock(&client->awaiters_lock);
-}
+    int status = 0;
+    GRTRACE(GRSTR("gracht_client_wait_message()"));
 
-static inline void __await_remove(
-        gracht_client_t*               client,
-        struct gracht_message_awaiter* awaiter)
-{
-    mtx_lock(&client->awaiters_lock);
-    gr_hashtable_remove(&client->awaiters, &(struct gracht_message_awaiter_entry) {
-            .id = awaiter->id
-    });
-    mtx_unlock(&client->awaiters_lock);
-}
+    if (!client) {
+        errno = (EINVAL);
+        return -1;
+    }
 
-static inline void __await_loop(
-        gracht_client_t*                client,
-        struct gracht_message_context** contexts,
-        struct gracht_message_awaiter*  awaiter)
-{
-    while (awaiter->current_count < awaiter->count) {
-        gracht_client_wait_message(client, NULL, GRACHT_MESSAGE_BLOCK);
+    mtx_lock(&client->messages_lock);
+    if (context && !gr_hashtable_get(&client->messages, &(struct gracht_message_descriptor) { .id = context->message_id })) {
+        mtx_unlock(&client->messages_lock);
+        errno = ENOENT;
+        return -1;
+    }
 
-        // update status
-        mtx_lock(&client->messages_lock);
-        awaiter->current_count = 0;
-        for (int i = 0; i < awaiter->count; i++) {
-            struct gracht_message_descriptor* descriptor = gr_hashtable_get(
-                    &client->messages,
-                    &(struct gracht_message_descriptor) {
-                            .id = contexts[i]->message_id
-                    }
-            );
-            if (descriptor == NULL || MESSAGE_STATUS_EXECUTED(descriptor->status)) {
-                awaiter->current_count++;
+    // If a context is provided we expect the caller wanting to listen for that specific message. That means
+    // we keep handling messages untill that has been received. Only one thread can listen for client messages
+    // at a time, and that means all other threads must wait for the thread that listens currently.
+    while (!context || !__is_executed(client, context)) {
+        if (client->receiving) {
+            if (!(flags & GRACHT_MESSAGE_BLOCK)) {
+                errno  = EBUSY;
+                status = -1;
+                break;
             }
+            cnd_wait(&client->messages_event, &client->messages_lock);
+            continue;
+        }
+
+        status = __receive_message(client, flags);
+        if (status < 0 || (!status && !context)) {
+            break;
         }
-        mtx_unlock(&client->messages_lock);
     }
+    mtx_unlock(&client->messages_lock);
+    return status < 0 ? -1 : 0;
 }
 
 int gracht_client_await_multiple(
@@ -417,9 +348,7 @@ int gracht_client_await_multiple(
         int                             contextCount,
         unsigned int                    flags)
 {
-    struct gracht_message_awaiter* awaiter;
-    int                            i;
-    bool                           bail;
+    int status = 0;
     GRTRACE(GRSTR("gracht_client_await_multiple()"));
     
     if (!client || !contexts || !contextCount) {
@@ -427,67 +356,29 @@ int gracht_client_await_multiple(
         return -1;
     }
 
-    // create the awaiter
-    awaiter = __awaiter_new(client, flags, contextCount);
-    if (awaiter == NULL) {
-        return -1;
-    }
-
-    // first step is to get a status of all messages we are awaiting
     mtx_lock(&client->messages_lock);
-    for (i = 0; i < contextCount; i++) {
-        struct gracht_message_descriptor* descriptor = gr_hashtable_get(
-                &client->messages,
-                &(struct gracht_message_descriptor) {
-                    .id = contexts[i]->message_id
-                }
-        );
-        if (!descriptor) {
-            // we were waiting for a non-existant message, in theory it could
-            // have dissappeared?
-            awaiter->current_count++;
-            continue;
-        }
-
-        descriptor->awaiter_id = awaiter->id;
-        if (MESSAGE_STATUS_EXECUTED(descriptor->status)) {
-            awaiter->current_count++;
+    while (!__is_await_done(client, contexts, contextCount, flags)) {
+        if (flags & GRACHT_AWAIT_ASYNC) {
+            // in async mode we expect another thread to do the event pumping
+            if (client->connection_lost) {
+                errno  = EPIPE;
+                status = -1;
+                break;
+            }
+            cnd_wait(&client->messages_event, &client->messages_lock);
+        } else if (client->receiving) {
+            cnd_wait(&client->messages_event, &client->messages_lock);
+        } else {
+            // otherwise we are a single threaded application (maybe) and we should also
+            // handle the pumping of messages.
+            status = __receive_message(client, GRACHT_MESSAGE_BLOCK);
+            if (status < 0) {
+                break;
+            }
         }
     }
-
-    // calculate here whether we can bail early, so we can skip time
-    // not adding the awaiter
-    bail = (!(flags & GRACHT_AWAIT_ALL) && awaiter->current_count > 0) || awaiter->current_count == awaiter->count;
-
-    // add the awaiter while we hold the message lock to avoid a data-race
-    // between those
-    if (!bail) {
-        __await_add(client, awaiter);
-    }
     mtx_unlock(&client->messages_lock);
-
-    // early bail?
-    if (bail) {
-        goto cleanup;
-    }
-    
-    // in async bail mode we expect another thread to do the event pumping,
-    // and thus we should just use the awaiter
-    if (flags & GRACHT_AWAIT_ASYNC) {
-        mtx_lock(&awaiter->mutex);
-        cnd_wait(&awaiter->event, &awaiter->mutex);
-        mtx_unlock(&awaiter->mutex);
-    } else {
-        // otherwise we are a single threaded application (maybe) and we should also
-        // handle the pumping of messages.
-        __await_loop(client, contexts, awaiter);
-    }
-    __await_remove(client, awaiter);
-
-cleanup:
-    // cleanup the awaiter
-    free(awaiter);
-    return 0;
+    return status < 0 ? -1 : 0;
 }
 
 int gracht_client_await(gracht_client_t* client, struct gracht_message_context* context, unsigned int flags)
@@ -597,16 +488,13 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
     
     memset(client, 0, sizeof(gracht_client_t));
     mtx_init(&client->send_buffer_lock, mtx_plain);
-    mtx_init(&client->wait_lock, mtx_plain);
     mtx_init(&client->messages_lock, mtx_plain);
-    mtx_init(&client->awaiters_lock, mtx_plain);
+    cnd_init(&client->messages_event);
     gr_hashtable_construct(&client->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp);
     gr_hashtable_construct(&client->messages, 0, sizeof(struct gracht_message_descriptor), message_hash, message_cmp);
-    gr_hashtable_construct(&client->awaiters, 0, sizeof(struct gracht_message_awaiter_entry), awaiter_hash, awaiter_cmp);
 
     client->link = config->link;
     client->iod = GRACHT_CONN_INVALID;
-    client->current_awaiter_id = 1;
     client->current_message_id = 1;
 
     // handle memory sizes
@@ -693,13 +581,11 @@ void gracht_client_shutdown(gracht_client_t* client)
         gracht_arena_destroy(client->arena);
     }
     
-    gr_hashtable_destroy(&client->awaiters);
     gr_hashtable_destroy(&client->messages);
     gr_hashtable_destroy(&client->protocols);
-    mtx_destroy(&client->wait_lock);
     mtx_destroy(&client->send_buffer_lock);
     mtx_destroy(&client->messages_lock);
-    mtx_destroy(&client->awaiters_lock);
+    cnd_destroy(&client->messages_event);
     free(client);
 }
 
@@ -733,47 +619,14 @@ void gracht_client_unregister_protocol(gracht_client_t* client, gracht_protocol_
     gr_hashtable_remove(&client->protocols, protocol);
 }
 
-static void mark_awaiters(gracht_client_t* client, uint32_t awaiterID)
-{
-    struct gracht_message_awaiter_entry* entry;
-    struct gracht_message_awaiter*       awaiter;
-
-    mtx_lock(&client->awaiters_lock);
-    entry = gr_hashtable_get(
-            &client->awaiters,
-            &(struct gracht_message_awaiter_entry) { .id = awaiterID }
-    );
-    if (!entry) {
-        mtx_unlock(&client->awaiters_lock);
-        return;
-    }
-    awaiter = entry->awaiter;
-    mtx_unlock(&client->awaiters_lock);
-
-    awaiter->current_count++;
-    if (awaiter->flags & GRACHT_AWAIT_ALL) {
-        if (awaiter->current_count == awaiter->count) {
-            cnd_signal(&awaiter->event);
-        }
-    } else {
-        cnd_signal(&awaiter->event);
-    }
-}
-
 static uint32_t get_message_id(gracht_client_t* client)
 {
     return client->current_message_id++;
 }
 
-static uint32_t get_awaiter_id(gracht_client_t* client)
-{
-    return client->current_awaiter_id++;
-}
-
 void gracht_control_error_invocation(gracht_client_t* client, const uint32_t messageId, const int errorCode)
 {
     struct gracht_message_descriptor* descriptor;
-    uint32_t                          awaiterID;
     (void)errorCode;
 
     mtx_lock(&client->messages_lock);
@@ -792,11 +645,8 @@ void gracht_control_error_invocation(gracht_client_t* client, const uint32_t mes
     
     // set status
     descriptor->status = GRACHT_MESSAGE_ERROR;
-    awaiterID = descriptor->awaiter_id;
+    cnd_broadcast(&client->messages_event);
     mtx_unlock(&client->messages_lock);
-    
-    // iterate awaiters and mark those that contain this message
-    mark_awaiters(client, awaiterID);
 }
 
 static uint64_t message_hash(const void* element)
@@ -811,16 +661,3 @@ static int message_cmp(const void* element1, const void* element2)
     const struct gracht_message_descriptor* message2 = element2;
     return message1->id == message2->id ? 0 : 1;
 }
-
-static uint64_t awaiter_hash(const void* element)
-{
-    const struct gracht_message_awaiter_entry* awaiter = element;
-    return awaiter->id;
-}
-
-static int awaiter_cmp(const void* element1, const void* element2)
-{
-    const struct gracht_message_awaiter_entry* awaiter1 = element1;
-    const struct gracht_message_awaiter_entry* awaiter2 = element2;
-    return awaiter1->id == awaiter2->id ? 0 : 1;
-}
-- 
2.43.0


From 13e56a903c875fd41a7284017955e668d5f9f2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:11 +0000
Subject: [PATCH 25/57] fix: a client that sent a message in parts stalled the
 server until the rest arrived

---
 runtime/link/socket/server.c | 63 ++++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 14 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 515b322..a66d819 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -44,6 +44,8 @@ struct socket_link_client {
     gracht_conn_t               socket;
     gracht_conn_t               link;
     int                         streaming;
+    char*                       partial;        // start of a message that has only arrived in part
+    uint32_t                    partial_length;
 #ifdef _WIN32
     WSABUF                      waitbuf;
     uint8_t                     headerbuf[GRACHT_MESSAGE_HEADER_SIZE];
@@ -130,15 +132,46 @@ static int socket_link_send_client(struct socket_link_client* client,
     return 0;
 }
 
+#ifndef _WIN32
+// Receives until <length> bytes of the message have arrived, <received> of them already have. If they are not all
+// there yet they are kept for the next time, as we must not wait for the client to send the rest.
+static int socket_link_recv_until(struct socket_link_client* client,
+    struct gracht_message* context, uint32_t* received, uint32_t length, unsigned int socketFlags)
+{
+    while (*received < length) {
+        intmax_t bytesRead = recv(client->base.handle, &context->payload[*received], length - *received, socketFlags);
+        if (bytesRead == 0) {
+            errno = ENODATA;
+            return -1;
+        }
+        else if (bytesRead < 0) {
+            if ((errno == EAGAIN || errno == EWOULDBLOCK) && *received) {
+                client->partial = malloc(*received);
+                if (!client->partial) {
+                    errno = EFAULT; // can't recover from this, drop the client
+                    return -1;
+                }
+                memcpy(client->partial, &context->payload[0], *received);
+                client->partial_length = *received;
+                errno = EAGAIN;
+            }
+            return -1;
+        }
+        *received += (uint32_t)bytesRead;
+    }
+    return 0;
+}
+#endif
+
 static int socket_link_recv_client(struct socket_link_client* client,
     struct gracht_message* context, unsigned int flags)
 {
     unsigned int socketFlags = get_socket_flags(flags);
-    intmax_t     bytesRead;
     uint32_t     missingData;
     
     GRTRACE(GRSTR("socket_link_recv_client reading message header"));
 #ifdef _WIN32
+    intmax_t bytesRead;
     DWORD overlappedFlags;
     DWORD overlappedLength;
     BOOL  status;
@@ -167,20 +200,15 @@ static int socket_link_recv_client(struct socket_link_client* client,
         }
     }
 #else
-    bytesRead = recv(client->base.handle, &context->payload[0], GRACHT_MESSAGE_HEADER_SIZE, socketFlags);
-    if (bytesRead > 0 && bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
-        // only a part of the header has arrived, and that must not get lost
-        intmax_t bytesMissing = GRACHT_MESSAGE_HEADER_SIZE - bytesRead;
-        if (recv(client->base.handle, &context->payload[bytesRead], (size_t)bytesMissing, MSG_WAITALL) != bytesMissing) {
-            errno = EPIPE;
-            return -1;
-        }
-        bytesRead = GRACHT_MESSAGE_HEADER_SIZE;
+    uint32_t received = client->partial_length;
+    if (received) {
+        memcpy(&context->payload[0], client->partial, received);
+        free(client->partial);
+        client->partial        = NULL;
+        client->partial_length = 0;
     }
-    if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
-        if (bytesRead == 0) {
-            errno = ENODATA;
-        }
+
+    if (socket_link_recv_until(client, context, &received, GRACHT_MESSAGE_HEADER_SIZE, socketFlags)) {
         return -1;
     }
 #endif
@@ -196,6 +224,11 @@ static int socket_link_recv_client(struct socket_link_client* client,
     }
     if (missingData) {
         GRTRACE(GRSTR("socket_link_recv_client reading message payload"));
+#ifndef _WIN32
+        if (socket_link_recv_until(client, context, &received, GRACHT_MESSAGE_HEADER_SIZE + missingData, socketFlags)) {
+            return -1;
+        }
+#else
         bytesRead = recv(client->base.handle, &context->payload[GRACHT_MESSAGE_HEADER_SIZE], 
             (size_t)missingData, MSG_WAITALL);
         if (bytesRead != missingData) {
@@ -205,6 +238,7 @@ static int socket_link_recv_client(struct socket_link_client* client,
             errno = (EPIPE);
             return -1;
         }
+#endif
     }
 
     // ->server is set by server
@@ -273,6 +307,7 @@ static int socket_link_destroy_client(struct socket_link_client* client, gracht_
         }
         status = close(client->base.handle);
     }
+    free(client->partial);
     free(client);
     return status;
 }
-- 
2.43.0


From 14be4ffab1d72c4f7a5e2452b1749148c51c8c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:13 +0000
Subject: [PATCH 26/57] fix: a shutdown requested before the main loop was
 entered was refused and released nothing

---
 runtime/server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/server.c b/runtime/server.c
index c3e4169..ff60cde 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -607,7 +607,8 @@ int gracht_server_main_loop(gracht_server_t* server)
         return -1;
     }
 
-    if (server->state != RUNNING) {
+    // a shutdown that was requested already is carried out below
+    if (server->state == SHUTDOWN) {
         errno = EPERM;
         return -1;
     }
-- 
2.43.0


From 60febe58ed89cd2bbb08724b21cbb51ad950c14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:59 +0000
Subject: [PATCH 27/57] fix: copying a structure copied only a part of its
 arrays

---
 generator/languages/langc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 85d2960..8689ece 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -1046,7 +1046,7 @@ def write_structure_copy_function_members(service: ServiceObject, prefix, struct
             outfile.indent_dec()
             outfile.writeln("}")
         else:
-            outfile.writeln(f"memcpy(out->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}_count);")
+            outfile.writeln(f"memcpy(out->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}, sizeof({get_c_typename(service, member.get_typename())}) * in->{prefix}{member.get_name()}_count);")
         outfile.indent_dec()
         outfile.writeln("} else {")
         outfile.indent_inc()
-- 
2.43.0


From 77f5b707e5569859a600f41c5cb729fe7e1abf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:04 +0000
Subject: [PATCH 28/57] fix: variants with alternatives other than structures
 did not compile and lost the alternative

---
 generator/languages/langc.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 8689ece..78b5d2f 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -530,10 +530,14 @@ def write_struct_member_deserializer(service: ServiceObject, prefix, struct, mem
     if member.get_is_variable():
         write_variable_struct_member_deserializer(service, member, outfile)
     elif typename.lower() == "string":
-        outfile.writeln(f"uint32_t _{name}_length = *((uint32_t*)&buffer->data[buffer->index]);")
-        outfile.writeln(f"out->{name} = malloc(_{name}_length + 1);")
-        outfile.writeln(f"assert(out->{name} != NULL);")
-        outfile.writeln(f"deserialize_string_copy(buffer, &out->{prefix}{name}[0], 0);")
+        outfile.writeln("{")
+        outfile.indent_inc()
+        outfile.writeln("uint32_t __length = *((uint32_t*)&buffer->data[buffer->index]);")
+        outfile.writeln(f"out->{prefix}{name} = malloc(__length + 1);")
+        outfile.writeln(f"assert(out->{prefix}{name} != NULL);")
+        outfile.writeln(f"deserialize_string_copy(buffer, &out->{prefix}{name}[0], __length + 1);")
+        outfile.indent_dec()
+        outfile.writeln("}")
     elif service.typename_is_struct(typename):
         struct_type = service.lookup_struct(typename)
         struct_name = get_scoped_name(struct_type)
@@ -899,13 +903,11 @@ def write_structure_variant_member_functions(service: ServiceObject, struct: Str
             outfile.writeln(f"{member_name}_copy({entry.get_name()}, &in->{variant.get_name()}.{entry.get_name()});")
             outfile.writeln(f"in->{variant.get_name()}_type = {get_variant_enum_name(struct, variant, entry)};")
         elif entry.get_typename() == "string":
-            outfile.writeln(f"if ({entry.get_typename()} != NULL) {{")
-            outfile.indent_inc()
-            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = strdup({entry.get_typename()});")
-            outfile.indent_dec()
-            outfile.writeln("}")
+            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_name()} != NULL ? strdup({entry.get_name()}) : NULL;")
+            outfile.writeln(f"in->{variant.get_name()}_type = {get_variant_enum_name(struct, variant, entry)};")
         else:
-            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_typename()};")
+            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_name()};")
+            outfile.writeln(f"in->{variant.get_name()}_type = {get_variant_enum_name(struct, variant, entry)};")
         outfile.indent_dec()
         outfile.writeln("}")
         outfile.writeln("")
-- 
2.43.0


From 46d2c6c9926142b17831c4086883caf95fe4741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:34 +0000
Subject: [PATCH 29/57] fix: variants with alternatives of the same type, or
 named like a parameter of their accessor, did not compile

---
 generator/languages/langc.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 78b5d2f..2da3642 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -860,6 +860,12 @@ def get_variant_enum_name(struct: StructureObject, member, variant):
     return f"{get_scoped_name(struct).upper()}_{member.get_name().upper()}_{variant.get_name().upper()}"
 
 
+# Accessors are named after the type of the alternative, unless multiple alternatives share that type
+def get_variant_accessor_name(variant: VariableVariantObject, entry):
+    same_type = [x for x in variant.get_entries() if x.get_typename().lower() == entry.get_typename().lower()]
+    return entry.get_typename() if len(same_type) == 1 else entry.get_name()
+
+
 def write_structure_variant_enums(struct, outfile: CodeWriter):
     for member in struct.get_members():
         if isinstance(member, VariableVariantObject):
@@ -886,7 +892,7 @@ def write_structure_variant_member_functions(service: ServiceObject, struct: Str
     struct_typename = get_scoped_typename(struct)
 
     for i, entry in enumerate(variant.get_entries()):
-        outfile.writeln(f"static int {struct_name}_{variant.get_name()}_is_{entry.get_typename()}({struct_typename}* in) {{")
+        outfile.writeln(f"static int {struct_name}_{variant.get_name()}_is_{get_variant_accessor_name(variant, entry)}({struct_typename}* in) {{")
         outfile.indent_inc()
         outfile.writeln(f"return in->{variant.get_name()}_type == {get_variant_enum_name(struct, variant, entry)};")
         outfile.indent_dec()
@@ -894,19 +900,20 @@ def write_structure_variant_member_functions(service: ServiceObject, struct: Str
         outfile.writeln("")
     
     for i, entry in enumerate(variant.get_entries()):
-        param_string = get_param_typename(service, entry, CONST.TYPENAME_CASE_FUNCTION_CALL, False)
-        outfile.writeln(f"static void {struct_name}_{variant.get_name()}_set_{entry.get_typename()}({struct_typename}* in, {param_string}) {{")
+        # the name of the parameter must not depend on the definition, it could be the name of another parameter
+        param_string = get_param_typename(service, VariableObject(entry.get_typename(), "value", False), CONST.TYPENAME_CASE_FUNCTION_CALL, False)
+        outfile.writeln(f"static void {struct_name}_{variant.get_name()}_set_{get_variant_accessor_name(variant, entry)}({struct_typename}* in, {param_string}) {{")
         outfile.indent_inc()
         if service.typename_is_struct(entry.get_typename()):
             struct_type = service.lookup_struct(entry.get_typename())
             member_name = get_scoped_name(struct_type)
-            outfile.writeln(f"{member_name}_copy({entry.get_name()}, &in->{variant.get_name()}.{entry.get_name()});")
+            outfile.writeln(f"{member_name}_copy(value, &in->{variant.get_name()}.{entry.get_name()});")
             outfile.writeln(f"in->{variant.get_name()}_type = {get_variant_enum_name(struct, variant, entry)};")
         elif entry.get_typename() == "string":
-            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_name()} != NULL ? strdup({entry.get_name()}) : NULL;")
+            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = value != NULL ? strdup(value) : NULL;")
             outfile.writeln(f"in->{variant.get_name()}_type = {get_variant_enum_name(struct, variant, entry)};")
         else:
-            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_name()};")
+            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = value;")
             outfile.writeln(f"in->{variant.get_name()}_type = {get_variant_enum_name(struct, variant, entry)};")
         outfile.indent_dec()
         outfile.writeln("}")
-- 
2.43.0


From 7b11ea4811db05158ace8d4863b31a1e38c61f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:39 +0000
Subject: [PATCH 30/57] fix: structures extending a later structure, or
 anything after an empty one, were not resolved

---
 generator/passes/consolidate.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/generator/passes/consolidate.py b/generator/passes/consolidate.py
index aa43b5a..0e00cb3 100644
--- a/generator/passes/consolidate.py
+++ b/generator/passes/consolidate.py
@@ -12,7 +12,7 @@ def consolidate_struct_member(service: ServiceObject, done: list, struct: Struct
         if struct_target is None:
             raise ValueError(f"Type {typename} cannot be resolved")
         if not struct_target in done:
-            consolidate_struct(struct_target)
+            consolidate_struct(service, done, struct_target)
         
         mems = struct.get_members()
         index = mems.index(member)
@@ -24,9 +24,10 @@ def consolidate_struct_member(service: ServiceObject, done: list, struct: Struct
 
 def consolidate_struct(service: ServiceObject, done: list, struct: StructureObject):
     if struct in done:
-        return
+        return done
     
-    for member in struct.get_members():
+    # iterate a copy, the members are replaced as extensions are resolved
+    for member in list(struct.get_members()):
         consolidate_struct_member(service, done, struct, member)
     done.append(struct)
     return done
-- 
2.43.0


From 866e36bcf9032719bc42f0c96bc23c9650f67b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:43 +0000
Subject: [PATCH 31/57] fix: results following an array of structures that did
 not fit were garbage

---
 generator/languages/langc.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 2da3642..56a7e1e 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -484,12 +484,23 @@ def write_variable_member_deserializer(service: ServiceObject, member, outfile:
     name = member.get_name()
     outfile.writeln("__count = deserialize_uint32(&__buffer);")
     if service.typename_is_struct(typename):
-        outfile.writeln(f"for (uint32_t __i = 0; __i < GRMIN(__count, {name}_count); __i++) {{")
+        outfile.writeln(f"for (uint32_t __i = 0; __i < __count; __i++) {{")
         outfile.indent_inc()
         struct_type = service.lookup_struct(typename)
         struct_name = get_scoped_name(struct_type)
+        outfile.writeln(f"if (__i < {name}_count) {{")
+        outfile.indent_inc()
         outfile.writeln(f"deserialize_{struct_name}(&__buffer, &{name}_out[__i]);")
         outfile.indent_dec()
+        outfile.writeln("} else {")
+        outfile.indent_inc()
+        # there is no room for it, but what follows in the message must still be found
+        outfile.writeln(f"{get_scoped_typename(struct_type)} __skipped;")
+        outfile.writeln(f"deserialize_{struct_name}(&__buffer, &__skipped);")
+        outfile.writeln(f"{struct_name}_destroy(&__skipped);")
+        outfile.indent_dec()
+        outfile.writeln("}")
+        outfile.indent_dec()
         outfile.writeln("}")
     elif typename.lower() == "string":
         outfile.writeln(f"for (uint32_t __i = 0; __i < GRMIN(__count, {name}_max_length); __i++) {{")
-- 
2.43.0


From a75c3dcc3a1edcf60e45124e37037d891ad2e7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:43 +0000
Subject: [PATCH 32/57] fix: services were accepted with the id that means all
 services

---
 generator/passes/validate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generator/passes/validate.py b/generator/passes/validate.py
index c06c53d..4e7b49f 100644
--- a/generator/passes/validate.py
+++ b/generator/passes/validate.py
@@ -40,8 +40,9 @@ def resolve_all_types(service: ServiceObject):
     return
 
 def pass_validate(service: ServiceObject):
-    if service.get_id() < 1 or service.get_id() > 255:
-        raise ValueError(f"The id of service {service.name} must be in range of 1..255")
+    # id 0 is the control protocol, and 255 is used to subscribe to all services
+    if service.get_id() < 1 or service.get_id() > 254:
+        raise ValueError(f"The id of service {service.name} must be in range of 1..254")
 
     # we want to validate the ids of our functions and events that
     # they are in range of 1-255 and that there are no conflicts
-- 
2.43.0


From e9334fb183ba52a78c6f66577c6b0de46692deb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:48 +0000
Subject: [PATCH 33/57] fix: malformed numbers were accepted as no value, and
 hexadecimal ones only in upper-case

---
 generator/parser.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/generator/parser.py b/generator/parser.py
index 05843c4..c5b5e78 100644
--- a/generator/parser.py
+++ b/generator/parser.py
@@ -788,21 +788,20 @@ def parse_quoted(scanner, data):
 
 def parse_digit(scanner, data):
     startIdx = scanner.index()
-    if data[startIdx] == '0' and data[startIdx + 1] == 'x':
+    if data[startIdx] == '0' and next_n_char(data, startIdx + 1) == 'x':
         scanner.consume(2)
-        while scanner.has_next():
-            if scanner.current() not in "0123456789ABCDEF":
-                break
+        while scanner.has_next() and scanner.current() in "0123456789ABCDEFabcdef":
+            scanner.consume()
+    else:
+        if scanner.current() == '-':
+            scanner.consume()
+        while scanner.has_next() and scanner.current().isdigit():
             scanner.consume()
-        return str2int(data[startIdx: scanner.index()])
-
-    members = []
 
-    while scanner.current() == '-':
-        scanner.consume()
-    while scanner.current().isdigit():
-        scanner.consume()
-    return str2int(data[startIdx: scanner.index()])
+    value = str2int(data[startIdx: scanner.index()])
+    if value is None:
+        error(f"invalid number '{data[startIdx: scanner.index()]}' at line {scanner.line_no()}:{scanner.line_index()}")
+    return value
 
 
 def create_tokens_from_text(data):
-- 
2.43.0


From 01b8c8d280ff774d23d40c6f1dd288600a74fe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:53 +0000
Subject: [PATCH 34/57] fix: unterminated strings and comments were accepted

---
 generator/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/parser.py b/generator/parser.py
index c5b5e78..54b55fe 100644
--- a/generator/parser.py
+++ b/generator/parser.py
@@ -433,6 +433,7 @@ def skip_until(scanner: Scanner, data, marker):
                 scanner.consume(len(marker))
                 return
         scanner.consume()
+    error(f"expected '{marker}' but found end of file")
 
 
 def handle_import(context, tokens):
@@ -779,7 +780,7 @@ def parse_quoted(scanner, data):
         unquoted += scanner.current()
         scanner.consume()
 
-    if scanner.index == len(data):
+    if not scanner.has_next():
         error("expected closing '\"' but found end of file")
 
     scanner.consume()  # consume closing quote
@@ -823,6 +824,7 @@ def create_tokens_from_text(data):
         if element_is_comment_line(data, scanner.index()):
             skip_line(scanner)
         elif element_is_comment_block(data, scanner.index()):
+            scanner.consume(2)  # consume opening marker
             skip_until(scanner, data, "*/")
         elif el == '{':
             scanner.consume()
-- 
2.43.0


From 59101715ebf55b1b5dcaf27c98fbcf2dc7ec3c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:32 +0000
Subject: [PATCH 35/57] fix: headers of defined types were included in a random
 order, and not at all for types only some services use

---
 generator/passes/validate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/passes/validate.py b/generator/passes/validate.py
index 4e7b49f..4493539 100644
--- a/generator/passes/validate.py
+++ b/generator/passes/validate.py
@@ -22,7 +22,8 @@ def resolve_type(service: ServiceObject, service_imports: list, param):
     return service_imports
 
 def resolve_all_types(service: ServiceObject):
-    service_imports = service.get_imports()
+    # serializers are generated for all defined types, so the headers of unused ones are needed too
+    service_imports = [x.get_type_source() for x in service.get_types()]
     for func in service.get_functions():
         for param in func.get_request_params():
             service_imports = resolve_type(service, service_imports, param)
@@ -35,7 +36,8 @@ def resolve_all_types(service: ServiceObject):
         for member in struct.get_members():
             service_imports = resolve_type(service, service_imports, member)
 
-    unique_imports = set(service_imports)
+    # keep the order of the definition
+    unique_imports = dict.fromkeys(service_imports)
     service.set_imports(list(unique_imports))
     return
 
-- 
2.43.0


From 713616e029985d1f82de949852fcd664706bd6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:37 +0000
Subject: [PATCH 36/57] fix: services of different namespaces that define the
 same type could not be used together

---
 generator/languages/langc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 56a7e1e..f2bf7a6 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -786,7 +786,8 @@ static inline char* deserialize_string_nocopy(gracht_buffer_t* buffer) {
 
 def define_type_serializers(service: ServiceObject, outfile: CodeWriter):
     for defined_type in service.get_types():
-        guard_name = defined_type.get_namespace().upper() + "_" + defined_type.get_type_name().upper()
+        # the serializers of these are not prefixed with a namespace, so neither is the guard
+        guard_name = defined_type.get_type_name() + "_SERIALIZER"
         outfile.write(f"#ifndef __GRACHT_{guard_name}_DEFINED__\n")
         outfile.write(f"#define __GRACHT_{guard_name}_DEFINED__\n")
         outfile.write(f"SERIALIZE_VALUE({defined_type.get_type_name()}, {defined_type.get_type_name()})\n")
-- 
2.43.0


From 59ac5fd62a77434eaf2494527f7c84a187712daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:41 +0000
Subject: [PATCH 37/57] fix: parameters named client, server, context or
 message did not compile

---
 generator/languages/langc.py | 38 ++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index f2bf7a6..329a106 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -233,8 +233,8 @@ def get_service_internal_callback_name(service: ServiceObject, act):
 
 
 def get_event_prototype_name_single(service: ServiceObject, evt, case):
-    evt_server_param = get_param_typename(service, VariableObject("gracht_server_t*", "server", False), case, False)
-    evt_client_param = get_param_typename(service, VariableObject("gracht_conn_t", "client", False), case, False)
+    evt_server_param = get_param_typename(service, VariableObject("gracht_server_t*", "__server", False), case, False)
+    evt_client_param = get_param_typename(service, VariableObject("gracht_conn_t", "__client", False), case, False)
     evt_name = "int " + service.get_namespace() + "_" + service.get_name() + "_event_" + evt.get_name() + "_single("
     evt_name += evt_server_param + ", " + evt_client_param
 
@@ -244,7 +244,7 @@ def get_event_prototype_name_single(service: ServiceObject, evt, case):
 
 
 def get_event_prototype_name_all(service: ServiceObject, evt, case):
-    evt_server_param = get_param_typename(service, VariableObject("gracht_server_t*", "server", False), case, False)
+    evt_server_param = get_param_typename(service, VariableObject("gracht_server_t*", "__server", False), case, False)
     evt_name = "int " + service.get_namespace() + "_" + service.get_name() + "_event_" + evt.get_name() + "_all("
     evt_name += evt_server_param
 
@@ -607,11 +607,11 @@ def write_function_body_prologue(service: ServiceObject, action_id, flags, param
 
     if is_server:
         if "MESSAGE_FLAG_RESPONSE" in flags:
-            outfile.writeln("__status = gracht_server_get_buffer(message->server, &__buffer);")
+            outfile.writeln("__status = gracht_server_get_buffer(__message->server, &__buffer);")
         else:
-            outfile.writeln("__status = gracht_server_get_buffer(server, &__buffer);")
+            outfile.writeln("__status = gracht_server_get_buffer(__server, &__buffer);")
     else:
-        outfile.writeln("__status = gracht_client_get_buffer(client, &__buffer);")
+        outfile.writeln("__status = gracht_client_get_buffer(__client, &__buffer);")
     outfile.writeln("if (__status) {")
     outfile.writeln("    return __status;")
     outfile.writeln("}")
@@ -637,7 +637,7 @@ def write_function_body_epilogue(service: ServiceObject, func: FunctionObject, o
 def define_function_body(service: ServiceObject, func: FunctionObject, outfile: CodeWriter):
     flags = get_message_flags_func(func)
     write_function_body_prologue(service, func.get_id(), flags, func.get_request_params(), False, outfile)
-    outfile.write("__status = gracht_client_invoke(client, context, &__buffer);\n")
+    outfile.write("__status = gracht_client_invoke(__client, __context, &__buffer);\n")
     write_function_body_epilogue(service, func, outfile)
     return
 
@@ -648,7 +648,7 @@ def write_status_body_prologue(service: ServiceObject, func: FunctionObject, out
     write_variable_count(func.get_response_params(), outfile)
     outfile.writeln("")
 
-    outfile.writeln("__status = gracht_client_get_status_buffer(client, context, &__buffer);")
+    outfile.writeln("__status = gracht_client_get_status_buffer(__client, __context, &__buffer);")
     outfile.writeln("if (__status != GRACHT_MESSAGE_COMPLETED) {")
     outfile.writeln("    return __status;")
     outfile.writeln("}")
@@ -668,28 +668,28 @@ def write_status_body_epilogue(service: ServiceObject, func: FunctionObject, out
 
 def define_status_body(service: ServiceObject, func: FunctionObject, outfile: CodeWriter):
     write_status_body_prologue(service, func, outfile)
-    outfile.write("__status = gracht_client_status_finalize(client, &__buffer);\n")
+    outfile.write("__status = gracht_client_status_finalize(__client, &__buffer);\n")
     write_status_body_epilogue(service, func, outfile)
 
 
 def define_event_body_single(service: ServiceObject, evt, outfile: CodeWriter):
     flags = "MESSAGE_FLAG_EVENT"
     write_function_body_prologue(service, evt.get_id(), flags, evt.get_params(), True, outfile)
-    outfile.write("__status = gracht_server_send_event(server, client, &__buffer, 0);\n")
+    outfile.write("__status = gracht_server_send_event(__server, __client, &__buffer, 0);\n")
     write_function_body_epilogue(service, evt, outfile)
 
 
 def define_event_body_all(service: ServiceObject, evt, outfile: CodeWriter):
     flags = "MESSAGE_FLAG_EVENT"
     write_function_body_prologue(service, evt.get_id(), flags, evt.get_params(), True, outfile)
-    outfile.write("__status = gracht_server_broadcast_event(server, &__buffer, 0);\n")
+    outfile.write("__status = gracht_server_broadcast_event(__server, &__buffer, 0);\n")
     write_function_body_epilogue(service, evt, outfile)
 
 
 def define_response_body(service: ServiceObject, func, flags, outfile: CodeWriter):
     flags = "MESSAGE_FLAG_RESPONSE"
     write_function_body_prologue(service, func.get_id(), flags, func.get_response_params(), True, outfile)
-    outfile.write("__status = gracht_server_respond(message, &__buffer);\n")
+    outfile.write("__status = gracht_server_respond(__message, &__buffer);\n")
     write_function_body_epilogue(service, func, outfile)
 
 
@@ -1369,7 +1369,7 @@ def write_server_deserializer_body(service: ServiceObject, func: FunctionObject,
 class CGenerator:
     def get_server_callback_prototype(self, service, func):
         function_prototype = "void " + get_service_callback_name(service, func) + "("
-        function_message_param = get_param_typename(service, VariableObject("struct gracht_message*", "message", False),
+        function_message_param = get_param_typename(service, VariableObject("struct gracht_message*", "__message", False),
                                                     CONST.TYPENAME_CASE_FUNCTION_CALL, False)
         parameter_string = function_message_param
         if len(func.get_request_params()) > 0:
@@ -1379,7 +1379,7 @@ class CGenerator:
 
     def get_response_prototype(self, service, func, case):
         function_prototype = "int " + get_server_service_response_name(service, func) + "("
-        function_message_param = get_param_typename(service, VariableObject("struct gracht_message*", "message", False),
+        function_message_param = get_param_typename(service, VariableObject("struct gracht_message*", "__message", False),
                                                     case, False)
         parameter_string = function_message_param + ", "
         parameter_string = parameter_string + get_parameter_string(service, func.get_response_params(), case, True)
@@ -1388,10 +1388,10 @@ class CGenerator:
     def get_function_prototype(self, service, func, case):
         function_prototype = "int " + service.get_namespace().lower() + "_" \
                              + service.get_name().lower() + "_" + func.get_name()
-        function_client_param = get_param_typename(service, VariableObject("gracht_client_t*", "client", False), case,
+        function_client_param = get_param_typename(service, VariableObject("gracht_client_t*", "__client", False), case,
                                                    False)
         function_context_param = get_param_typename(service,
-                                                    VariableObject("struct gracht_message_context*", "context", False),
+                                                    VariableObject("struct gracht_message_context*", "__context", False),
                                                     case, False)
         function_prototype = function_prototype + "(" + function_client_param + ", " + function_context_param
         input_parameters = get_parameter_string(service, func.get_request_params(), case, False)
@@ -1403,8 +1403,8 @@ class CGenerator:
 
     def get_function_status_prototype(self, service, func):
         case = CONST.TYPENAME_CASE_FUNCTION_STATUS
-        client_param = VariableObject("gracht_client_t*", "client", False)
-        context_param = VariableObject("struct gracht_message_context*", "context", False)
+        client_param = VariableObject("gracht_client_t*", "__client", False)
+        context_param = VariableObject("struct gracht_message_context*", "__context", False)
 
         function_prototype = "int " + service.get_namespace().lower() + "_" \
                              + service.get_name().lower() + "_" + func.get_name() + "_result"
@@ -1555,7 +1555,7 @@ class CGenerator:
 
     def get_client_callback_prototype(self, service, evt):
         prototype = "void " + get_client_event_callback_name(service, evt) + "("
-        prototype = prototype + "gracht_client_t* client"
+        prototype = prototype + "gracht_client_t* __client"
         if len(evt.get_params()) > 0:
             prototype = prototype + ", " + get_parameter_string(service, evt.get_params(),
                                                                 CONST.TYPENAME_CASE_FUNCTION_CALL, False)
-- 
2.43.0


From 7fa71f60d236287b226bf76a0055abe913258e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:18 +0000
Subject: [PATCH 38/57] fix: structures used before their definition did not
 compile

---
 generator/common/shared.py      |  3 +++
 generator/languages/langc.py    | 14 ++++++++++++--
 generator/passes/consolidate.py | 20 ++++++++++++++++++++
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/generator/common/shared.py b/generator/common/shared.py
index 0fa8610..c483603 100644
--- a/generator/common/shared.py
+++ b/generator/common/shared.py
@@ -211,6 +211,9 @@ class ServiceObject:
                 return True
         return False
 
+    def set_structs(self, structs):
+        self.structs = structs
+
     def set_imports(self, imports):
         self.imports = imports
 
diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 329a106..5aea814 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -780,6 +780,9 @@ static inline char* deserialize_string_nocopy(gracht_buffer_t* buffer) {
         outfile.writeln(f"{struct_typename};")
         outfile.writeln(f"static void serialize_{struct_name}(gracht_buffer_t* buffer, const {struct_typename}* in);")
         outfile.writeln(f"static void deserialize_{struct_name}(gracht_buffer_t* buffer, {struct_typename}* out);")
+        outfile.writeln(f"static void {struct_name}_init({struct_typename}* in);")
+        outfile.writeln(f"static void {struct_name}_copy(const {struct_typename}* in, {struct_typename}* out);")
+        outfile.writeln(f"static void {struct_name}_destroy({struct_typename}* in);")
         outfile.writeln("")
     outfile.writeln("")
 
@@ -1136,11 +1139,18 @@ def define_structures(service: ServiceObject, outfile: CodeWriter):
         outfile.writeln("#define __" + struct_name.upper() + "_DEFINED__")
         write_structure_variant_enums(struct, outfile)
         write_structure(service, struct, CONST.TYPENAME_CASE_MEMBER, outfile)
-        outfile.writeln("\n")
-        write_structure_functionality(service, struct, outfile)
         outfile.writeln("#endif //! __" + struct_name.upper() + "_DEFINED__")
         outfile.writeln("")
 
+    # the functions of a structure may need the definition of any other structure
+    for struct in service.get_structs():
+        struct_name = get_scoped_name(struct)
+        outfile.writeln("#ifndef __" + struct_name.upper() + "_FUNCTIONS_DEFINED__")
+        outfile.writeln("#define __" + struct_name.upper() + "_FUNCTIONS_DEFINED__")
+        write_structure_functionality(service, struct, outfile)
+        outfile.writeln("#endif //! __" + struct_name.upper() + "_FUNCTIONS_DEFINED__")
+        outfile.writeln("")
+
 
 def write_client_api(service: ServiceObject, outfile: CodeWriter):
     outfile.writeln("""
diff --git a/generator/passes/consolidate.py b/generator/passes/consolidate.py
index 0e00cb3..6142005 100644
--- a/generator/passes/consolidate.py
+++ b/generator/passes/consolidate.py
@@ -32,7 +32,27 @@ def consolidate_struct(service: ServiceObject, done: list, struct: StructureObje
     done.append(struct)
     return done
 
+def order_struct(service: ServiceObject, ordered: list, parents: list, struct: StructureObject):
+    if struct in ordered:
+        return
+    if struct in parents:
+        raise ValueError(f"Structure {struct.get_name()} contains itself")
+
+    for member in struct.get_members():
+        entries = member.get_entries() if isinstance(member, VariableVariantObject) else [member]
+        for entry in entries:
+            # arrays are allocated seperately, so their type does not need to be known
+            if not entry.get_is_variable() and service.typename_is_struct(entry.get_typename()):
+                order_struct(service, ordered, parents + [struct], service.lookup_struct(entry.get_typename()))
+    ordered.append(struct)
+
 def pass_consolidate(service: ServiceObject):
     done = []
     for struct in service.get_structs():
         done = consolidate_struct(service, done, struct)
+
+    # structures can be used before they are defined, but must be generated before they are used
+    ordered = []
+    for struct in service.get_structs():
+        order_struct(service, ordered, [], struct)
+    service.set_structs(ordered)
-- 
2.43.0


From 082613b62423ea5f69f748ae49effe436ec0198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:54 +0000
Subject: [PATCH 39/57] fix: events with a single builtin type did not compile

---
 generator/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/parser.py b/generator/parser.py
index 54b55fe..19c9622 100644
--- a/generator/parser.py
+++ b/generator/parser.py
@@ -565,7 +565,9 @@ def handle_event(context, tokens):
     tokens.pop(0)  # consume COLON
 
     if tokens[0].token_type() == TOKENS.IDENTIFIER:
-        context.create_member(tokens[0].value(), tokens[0].value(), False)
+        # the parameter is named after its type, unless that is the name of a type in the target language
+        typeName = tokens[0].value()
+        context.create_member(typeName, typeName if typeName not in BUILTIN_TYPES else "value", False)
         tokens.pop(0)  # consume IDENTIFIER
     else:
         # create sublist
-- 
2.43.0


From c8cfcdc06d8c513138a9501285d36ecc6b895212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:58 +0000
Subject: [PATCH 40/57] fix: clients with string array results were generated
 but did not compile

---
 generator/languages/langc.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 5aea814..57f48cf 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -503,11 +503,8 @@ def write_variable_member_deserializer(service: ServiceObject, member, outfile:
         outfile.indent_dec()
         outfile.writeln("}")
     elif typename.lower() == "string":
-        outfile.writeln(f"for (uint32_t __i = 0; __i < GRMIN(__count, {name}_max_length); __i++) {{")
-        outfile.indent_inc()
-        outfile.writeln(f"{name}_out[__i] = deserialize_string_nocopy(&__buffer);")
-        outfile.indent_dec()
-        outfile.writeln("}")
+        print("error: variable string arrays are not supported at this moment for the C-code generator")
+        exit(-1)
     else:
         outfile.writeln(f"if (__count) {{")
         outfile.indent_inc()
-- 
2.43.0


From 231026340cfe381729c31990ae3f242a545e9691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:39 +0000
Subject: [PATCH 41/57] fix: messages to a stream client were torn or mixed
 when its socket took only a part

A blocking send is not atomic on stream sockets (TCP), so workers answering the same client could mix their
messages, and a non-blocking event of which only a part was accepted left the stream unreadable. Sends to one
client are now serialized and always completed once begun.
---
 runtime/link/socket/server.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index a66d819..7cdc92f 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -25,6 +25,7 @@
 #include "gracht/link/socket.h"
 #include "logging.h"
 #include "crc.h"
+#include "thread_api.h"
 #include "server_private.h"
 #include <stdlib.h>
 #include <string.h>
@@ -44,6 +45,7 @@ struct socket_link_client {
     gracht_conn_t               socket;
     gracht_conn_t               link;
     int                         streaming;
+    mtx_t                       send_lock;      // messages of several threads must not be mixed
     char*                       partial;        // start of a message that has only arrived in part
     uint32_t                    partial_length;
 #ifdef _WIN32
@@ -77,6 +79,7 @@ static int queue_accept(struct gracht_link_socket* link, gracht_handle_t iocp_ha
 
     client->base.handle = client->socket;
     client->streaming   = 1;
+    mtx_init(&client->send_lock, mtx_plain);
     client->waitbuf.buf = &client->headerbuf[0];
     client->waitbuf.len = GRACHT_MESSAGE_HEADER_SIZE;
 
@@ -114,6 +117,7 @@ static int socket_link_send_client(struct socket_link_client* client,
     unsigned int socketFlags = get_socket_flags(flags);
     intmax_t     bytesWritten;
 
+    mtx_lock(&client->send_lock);
 #ifdef _WIN32
     __set_nonblocking_if_needed(client->base.handle, flags);
 #endif
@@ -121,11 +125,26 @@ static int socket_link_send_client(struct socket_link_client* client,
     GRTRACE(GRSTR("[socket_link_send] sending message"));
     if (client->streaming) {
         bytesWritten = send(client->base.handle, &message->data[0], message->index, socketFlags | MSG_NOSIGNAL);
+        while (bytesWritten > 0 && bytesWritten < message->index) {
+            // Only a part of the message was accepted. The rest must follow it, no matter if we were told not to
+            // block, otherwise everything that is sent to this client afterwards becomes unreadable.
+            intmax_t moreBytes;
+#ifdef _WIN32
+            __set_nonblocking_if_needed(client->base.handle, GRACHT_MESSAGE_BLOCK);
+#endif
+            moreBytes = send(client->base.handle, &message->data[bytesWritten], message->index - (size_t)bytesWritten, MSG_NOSIGNAL);
+            if (moreBytes <= 0) {
+                break;
+            }
+            bytesWritten += moreBytes;
+        }
     } else {
         // the handle of a connection-less client is not a socket
         bytesWritten = sendto(client->socket, &message->data[0], message->index, socketFlags | MSG_NOSIGNAL,
             (const struct sockaddr*)&client->address, client->address_length);
     }
+    mtx_unlock(&client->send_lock);
+
     if (bytesWritten != message->index) {
         return -1;
     }
@@ -281,6 +300,7 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
     client->base.handle = message->client;
     client->socket      = link->base.connection;
     client->streaming   = 0;
+    mtx_init(&client->send_lock, mtx_plain);
 
     sender = (struct socket_link_sender*)&message->payload[0];
     memcpy(&client->address, &sender->address, sizeof(struct sockaddr_storage));
@@ -307,6 +327,7 @@ static int socket_link_destroy_client(struct socket_link_client* client, gracht_
         }
         status = close(client->base.handle);
     }
+    mtx_destroy(&client->send_lock);
     free(client->partial);
     free(client);
     return status;
@@ -479,6 +500,7 @@ static int socket_link_accept(
     }
     client->base.handle = client->socket;
     client->streaming   = 1;
+    mtx_init(&client->send_lock, mtx_plain);
     
     status = socket_aio_add(set_handle, client->socket);
     if (status) {
-- 
2.43.0


From 81c735295376aa262a14d33610857f934dc8b9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:32 +0000
Subject: [PATCH 42/57] fix: signals during a transfer lost messages and
 connections

---
 runtime/link/socket/client.c | 56 +++++++++++++++++++++++++++---------
 runtime/link/socket/server.c | 19 ++++++++----
 2 files changed, 56 insertions(+), 19 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index 05065b9..2419b67 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -32,14 +32,37 @@
 static int socket_link_send_stream(struct gracht_link_socket* link,
     struct gracht_buffer* message)
 {
-    long byteCount;
+    uint32_t bytesSent = 0;
     
-    byteCount = (long)send(link->base.connection, &message->data[0], message->index, MSG_NOSIGNAL);
-    if ((uint32_t)byteCount != message->index) {
-        GRERROR(GRSTR("link_client: failed to send message, bytes sent: %li, expected: %u (%i)"),
-              byteCount, message->index, errno);
-        errno = (EPIPE);
-        return -1;
+    while (bytesSent < message->index) {
+        long byteCount = (long)send(link->base.connection, &message->data[bytesSent], message->index - bytesSent, MSG_NOSIGNAL);
+        if (byteCount < 0 && errno == EINTR) {
+            continue;
+        }
+        if (byteCount <= 0) {
+            GRERROR(GRSTR("link_client: failed to send message, bytes sent: %u, expected: %u (%i)"),
+                  bytesSent, message->index, errno);
+            errno = (EPIPE);
+            return -1;
+        }
+        bytesSent += (uint32_t)byteCount;
+    }
+    return 0;
+}
+
+// Receives all of the given length, also when a signal ends the waiting before it is complete.
+static int socket_link_recv_all(struct gracht_link_socket* link, uint8_t* data, uint32_t length)
+{
+    while (length) {
+        long bytesRead = (long)recv(link->base.connection, data, length, MSG_WAITALL);
+        if (bytesRead < 0 && errno == EINTR) {
+            continue;
+        }
+        if (bytesRead <= 0) {
+            return -1;
+        }
+        data   += bytesRead;
+        length -= (uint32_t)bytesRead;
     }
     return 0;
 }
@@ -51,11 +74,13 @@ static int socket_link_recv_stream(struct gracht_link_socket* link,
     uint32_t missingData;
     
     GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message header"));
-    bytesRead = (long)recv(link->base.connection, &message->data[0], GRACHT_MESSAGE_HEADER_SIZE, flags);
+    do {
+        bytesRead = (long)recv(link->base.connection, &message->data[0], GRACHT_MESSAGE_HEADER_SIZE, flags);
+    } while (bytesRead < 0 && errno == EINTR);
     if (bytesRead > 0 && bytesRead < GRACHT_MESSAGE_HEADER_SIZE) {
         // only a part of the header has arrived, and that must not get lost
         missingData = GRACHT_MESSAGE_HEADER_SIZE - (uint32_t)bytesRead;
-        if (recv(link->base.connection, &message->data[bytesRead], missingData, MSG_WAITALL) != (long)missingData) {
+        if (socket_link_recv_all(link, (uint8_t*)&message->data[bytesRead], missingData)) {
             errno = (EPIPE);
             return -1;
         }
@@ -83,11 +108,9 @@ static int socket_link_recv_stream(struct gracht_link_socket* link,
     }
     if (missingData) {
         GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message payload"));
-        bytesRead = (long)recv(link->base.connection, &message->data[GRACHT_MESSAGE_HEADER_SIZE], missingData, MSG_WAITALL);
-        if (bytesRead != (long)missingData) {
+        if (socket_link_recv_all(link, (uint8_t*)&message->data[GRACHT_MESSAGE_HEADER_SIZE], missingData)) {
             // do not process incomplete requests
-            GRERROR(GRSTR("[gracht_connection_recv_message] did not read full amount of bytes (%u, expected %u)"),
-                  (uint32_t)bytesRead, missingData);
+            GRERROR(GRSTR("[gracht_connection_recv_message] did not read full amount of bytes (expected %u)"), missingData);
             errno = (EPIPE);
             return -1; 
         }
@@ -103,7 +126,9 @@ static int socket_link_send_packet(struct gracht_link_socket* link, struct grach
 
     GRTRACE(GRSTR("link_client: send message (%u)"), message->index);
 
-    byteCount = send(link->base.connection, &message->data[0], message->index, MSG_NOSIGNAL);
+    do {
+        byteCount = send(link->base.connection, &message->data[0], message->index, MSG_NOSIGNAL);
+    } while (byteCount < 0 && errno == EINTR);
     if (byteCount != message->index) {
         GRERROR(GRSTR("link_client: failed to send message, bytes sent: %u, expected: %u"),
               (uint32_t)byteCount, message->index);
@@ -124,6 +149,9 @@ static int socket_link_recv_packet(struct gracht_link_socket* link, struct grach
     do {
         bytes_read = (long)recv(link->base.connection, &message->data[0], message->index, flags);
         if (bytes_read < 0) {
+            if (errno == EINTR) {
+                continue;
+            }
             if (errno != EAGAIN && errno != EWOULDBLOCK) {
                 errno = (EPIPE);
             }
diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 7cdc92f..f38b144 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -124,7 +124,9 @@ static int socket_link_send_client(struct socket_link_client* client,
 
     GRTRACE(GRSTR("[socket_link_send] sending message"));
     if (client->streaming) {
-        bytesWritten = send(client->base.handle, &message->data[0], message->index, socketFlags | MSG_NOSIGNAL);
+        do {
+            bytesWritten = send(client->base.handle, &message->data[0], message->index, socketFlags | MSG_NOSIGNAL);
+        } while (bytesWritten < 0 && errno == EINTR);
         while (bytesWritten > 0 && bytesWritten < message->index) {
             // Only a part of the message was accepted. The rest must follow it, no matter if we were told not to
             // block, otherwise everything that is sent to this client afterwards becomes unreadable.
@@ -133,6 +135,9 @@ static int socket_link_send_client(struct socket_link_client* client,
             __set_nonblocking_if_needed(client->base.handle, GRACHT_MESSAGE_BLOCK);
 #endif
             moreBytes = send(client->base.handle, &message->data[bytesWritten], message->index - (size_t)bytesWritten, MSG_NOSIGNAL);
+            if (moreBytes < 0 && errno == EINTR) {
+                continue;
+            }
             if (moreBytes <= 0) {
                 break;
             }
@@ -140,8 +145,10 @@ static int socket_link_send_client(struct socket_link_client* client,
         }
     } else {
         // the handle of a connection-less client is not a socket
-        bytesWritten = sendto(client->socket, &message->data[0], message->index, socketFlags | MSG_NOSIGNAL,
-            (const struct sockaddr*)&client->address, client->address_length);
+        do {
+            bytesWritten = sendto(client->socket, &message->data[0], message->index, socketFlags | MSG_NOSIGNAL,
+                (const struct sockaddr*)&client->address, client->address_length);
+        } while (bytesWritten < 0 && errno == EINTR);
     }
     mtx_unlock(&client->send_lock);
 
@@ -613,8 +620,10 @@ static int socket_link_send_packet(struct gracht_link_socket* link,
         return -1;
     }
     
-    bytesWritten = (long)sendto(link->base.connection, &message->data[0], message->index, MSG_WAITALL | MSG_NOSIGNAL,
-        (const struct sockaddr*)&sender->address, sender->address_length);
+    do {
+        bytesWritten = (long)sendto(link->base.connection, &message->data[0], message->index, MSG_WAITALL | MSG_NOSIGNAL,
+            (const struct sockaddr*)&sender->address, sender->address_length);
+    } while (bytesWritten < 0 && errno == EINTR);
     if (bytesWritten != message->index) {
         GRERROR(GRSTR("link_server: failed to respond [%li/%i]"), bytesWritten, message->index);
         if (bytesWritten == -1) {
-- 
2.43.0


From 8889e749fbe7cca47ddc8d5362d74c4c875c45b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:19 +0000
Subject: [PATCH 43/57] fix: failed attempts to add a link leaked a socket

---
 runtime/link/socket/server.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index f38b144..e6991ce 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -359,7 +359,7 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         status = bind(link->base.connection,
             (const struct sockaddr*)&link->address, link->address_length);
         if (status) {
-            return GRACHT_CONN_INVALID;
+            goto error;
         }
         
         status = socket_aio_add(set_handle, link->base.connection);
@@ -398,13 +398,13 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         status = bind(link->base.connection,
             (const struct sockaddr*)&link->address, link->address_length);
         if (status) {
-            return GRACHT_CONN_INVALID;
+            goto error;
         }
         
         // Enable listening for connections, with a maximum of 2 on backlog
         status = listen(link->base.connection, 2);
         if (status) {
-            return GRACHT_CONN_INVALID;
+            goto error;
         }
         
         status = socket_aio_add(set_handle, link->base.connection);
@@ -423,6 +423,14 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
     
     errno = (ENOTSUP);
     return GRACHT_CONN_INVALID;
+
+error:
+    // the link may be added again later
+    status = errno;
+    close(link->base.connection);
+    link->base.connection = GRACHT_CONN_INVALID;
+    errno = status;
+    return GRACHT_CONN_INVALID;
 }
 
 #ifdef _WIN32
-- 
2.43.0


From e24fe74b377e0bb48911e72928e1f132f2550d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:21 +0000
Subject: [PATCH 44/57] fix: elements were not removed from a hashtable when
 there was no memory to shrink it

A client that disconnected at such a moment stayed in the list of clients. Neither shrinking
nor growing is necessary for the operation itself to succeed.
---
 runtime/hashtable.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/runtime/hashtable.c b/runtime/hashtable.c
index 095323c..b18e2e9 100644
--- a/runtime/hashtable.c
+++ b/runtime/hashtable.c
@@ -35,7 +35,7 @@ struct hashtable_element {
     uint8_t  payload[];
 };
 
-#define SHOULD_GROW(hashtable)        (hashtable->element_count == hashtable->grow_count)
+#define SHOULD_GROW(hashtable)        (hashtable->element_count >= hashtable->grow_count)
 #define SHOULD_SHRINK(hashtable)      (hashtable->element_count == hashtable->shrink_count)
 
 #define GET_ELEMENT_ARRAY(hashtable, elements, index) (struct hashtable_element*)&((uint8_t*)elements)[index * hashtable->element_size]
@@ -116,8 +116,10 @@ void* gr_hashtable_set(gr_hashtable_t* hashtable, const void* element)
     struct hashtable_element* iterElement = (struct hashtable_element*)&elementBuffer[0];
     size_t                    index;
 
-    // Only resize on entry - that way we avoid any unneccessary resizing
-    if (SHOULD_GROW(hashtable) && hashtable_resize(hashtable, hashtable->capacity << 1)) {
+    // Only resize on entry - that way we avoid any unneccessary resizing. If there is no memory for that we make do
+    // with the storage we have, but one slot must stay free as it terminates the searches
+    if (SHOULD_GROW(hashtable) && hashtable_resize(hashtable, hashtable->capacity << 1) &&
+        hashtable->element_count + 1 >= hashtable->capacity) {
         errno = ENOMEM;
         return NULL;
     }
@@ -204,10 +206,9 @@ void* gr_hashtable_remove(gr_hashtable_t* hashtable, const void* key)
         return NULL;
     }
 
-    // Only resize on entry to avoid any unncessary resizes
-    if (SHOULD_SHRINK(hashtable) && hashtable_resize(hashtable, hashtable->capacity >> 1)) {
-        errno = ENOMEM;
-        return NULL;
+    // Only resize on entry to avoid any unncessary resizes, the element can be removed without it
+    if (SHOULD_SHRINK(hashtable)) {
+        (void)hashtable_resize(hashtable, hashtable->capacity >> 1);
     }
 
     hash  = hashtable->hash(key);
-- 
2.43.0


From 15b5896eaeb541473295eb289d902d724fc3bd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:21 +0000
Subject: [PATCH 45/57] fix: buffers were lost when there was no memory to keep
 them for later

---
 include/stack.h  |  2 +-
 runtime/server.c | 16 ++++++++++++----
 runtime/stack.c  | 10 ++++++++--
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/stack.h b/include/stack.h
index 0a8363c..401de23 100644
--- a/include/stack.h
+++ b/include/stack.h
@@ -32,7 +32,7 @@ struct stack {
 
 int   stack_construct(struct stack* stack, size_t initialCount);
 void  stack_destroy(struct stack* stack);
-void  stack_push(struct stack* stack, void* pointer);
+int   stack_push(struct stack* stack, void* pointer);
 void* stack_pop(struct stack* stack);
 
 #endif //! __GRACHT_STACK_H__
diff --git a/runtime/server.c b/runtime/server.c
index ff60cde..347c193 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -655,6 +655,14 @@ int gracht_server_get_buffer(gracht_server_t* server, gracht_buffer_t* buffer)
     return 0;
 }
 
+static void put_buffer(struct gracht_server* server, void* data)
+{
+    if (stack_push(&server->bufferStack, data)) {
+        // no room to keep it for later
+        free(data);
+    }
+}
+
 int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t* message)
 {
     struct client_wrapper* entry;
@@ -696,7 +704,7 @@ int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t
     }
 
     // return the borrowed buffer to the stack
-    stack_push(&messageContext->server->bufferStack, message->data);
+    put_buffer(messageContext->server, message->data);
     return status;
 }
 
@@ -717,7 +725,7 @@ int gracht_server_send_event(gracht_server_t* server, gracht_conn_t client, grac
     clientEntry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = client });
     if (!clientEntry) {
         rwlock_r_unlock(&server->clients_lock);
-        stack_push(&server->bufferStack, message->data);
+        put_buffer(server, message->data);
         errno = ENOENT;
         return -1;
     }
@@ -727,7 +735,7 @@ int gracht_server_send_event(gracht_server_t* server, gracht_conn_t client, grac
     rwlock_r_unlock(&server->clients_lock);
 
     // return the borrowed buffer to the stack
-    stack_push(&server->bufferStack, message->data);
+    put_buffer(server, message->data);
     return status;
 }
 
@@ -751,7 +759,7 @@ int gracht_server_broadcast_event(gracht_server_t* server, gracht_buffer_t* mess
     rwlock_r_unlock(&server->clients_lock);
 
     // return the borrowed buffer to the stack
-    stack_push(&server->bufferStack, message->data);
+    put_buffer(server, message->data);
     return 0;
 }
 
diff --git a/runtime/stack.c b/runtime/stack.c
index f57949d..57f4cd4 100644
--- a/runtime/stack.c
+++ b/runtime/stack.c
@@ -65,17 +65,23 @@ static int stack_resize(struct stack* stack, size_t newSize)
     return 0;
 }
 
-void stack_push(struct stack* stack, void* pointer)
+int stack_push(struct stack* stack, void* pointer)
 {
+    int status = 0;
+
     if (!stack || !pointer) {
-        return;
+        errno = EINVAL;
+        return -1;
     }
 
     mtx_lock(&stack->mutex);
     if (stack->index < stack->count || !stack_resize(stack, stack->count * 2)) {
         stack->elements[stack->index++] = pointer;
+    } else {
+        status = -1;
     }
     mtx_unlock(&stack->mutex);
+    return status;
 }
 
 void* stack_pop(struct stack* stack)
-- 
2.43.0


From c23b07ca624340784534d9b6d7287a95b1ebca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:21 +0000
Subject: [PATCH 46/57] fix: requests were lost and servers ran without workers
 when memory or threads ran out

---
 runtime/dispatch_generic.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/runtime/dispatch_generic.c b/runtime/dispatch_generic.c
index 362ae7b..d73b29b 100644
--- a/runtime/dispatch_generic.c
+++ b/runtime/dispatch_generic.c
@@ -52,7 +52,7 @@ struct gracht_worker_pool {
 };
 
 static int  worker_dowork(void*);
-static void initialize_worker(struct gracht_server*, struct gracht_worker*);
+static int  initialize_worker(struct gracht_server*, struct gracht_worker*);
 static void cleanup_worker(struct gracht_worker*);
 
 int gracht_worker_pool_create(struct gracht_server* server, int numberOfWorkers, struct gracht_worker_pool** poolOut)
@@ -85,7 +85,12 @@ int gracht_worker_pool_create(struct gracht_server* server, int numberOfWorkers,
     pool->worker_count = numberOfWorkers;
     pool->rr_index = 0;
     for (i = 0; i < numberOfWorkers; i++) {
-        initialize_worker(server, &pool->workers[i]);
+        if (initialize_worker(server, &pool->workers[i])) {
+            pool->worker_count = i;
+            gracht_worker_pool_destroy(pool);
+            errno = ENOMEM;
+            return -1;
+        }
     }
 
     *poolOut = pool;
@@ -121,6 +126,7 @@ void gracht_worker_pool_destroy(struct gracht_worker_pool* pool)
 void gracht_worker_pool_dispatch(struct gracht_worker_pool* pool, struct gracht_message* recvMessage)
 {
     struct gracht_worker* worker;
+    int                   status;
 
     if (!pool || !recvMessage) {
         return;
@@ -128,10 +134,17 @@ void gracht_worker_pool_dispatch(struct gracht_worker_pool* pool, struct gracht_
 
     worker = &pool->workers[pool->rr_index];
     mtx_lock(&worker->sync_object);
-    gr_queue_enqueue(&worker->job_queue, recvMessage);
+    status = gr_queue_enqueue(&worker->job_queue, recvMessage);
     mtx_unlock(&worker->sync_object);
     cnd_signal(&worker->signal);
 
+    // no room left in the queue, do not lose the message but handle it right here
+    if (status) {
+        struct gracht_server* server = recvMessage->server;
+        server_invoke_action(server, recvMessage);
+        server_cleanup_message(server, recvMessage);
+    }
+
     // increase round robin index and handle limit
     pool->rr_index++;
     if (pool->rr_index == pool->worker_count) {
@@ -139,27 +152,34 @@ void gracht_worker_pool_dispatch(struct gracht_worker_pool* pool, struct gracht_
     }
 }
 
-static void initialize_worker(struct gracht_server* server, struct gracht_worker* worker)
+static int initialize_worker(struct gracht_server* server, struct gracht_worker* worker)
 {
     struct gracht_worker_context* context;
 
     context = malloc(sizeof(struct gracht_worker_context));
     if (!context) {
         GRERROR(GRSTR("initialize_worker: failed to allocate memory for worker context"));
-        return;
+        return -1;
     }
 
     context->worker = worker;
     context->server = server;
 
-    gr_queue_construct(&worker->job_queue, SERVER_WORKER_DEFAULT_QUEUE_SIZE);
+    if (gr_queue_construct(&worker->job_queue, SERVER_WORKER_DEFAULT_QUEUE_SIZE)) {
+        free(context);
+        return -1;
+    }
     mtx_init(&worker->sync_object, mtx_plain);
     cnd_init(&worker->signal);
     worker->state = WORKER_STARTUP;
 
     if (thrd_create(&worker->id, worker_dowork, context) != thrd_success) {
         GRERROR(GRSTR("initialize_worker: failed to create worker-thread"));
+        cleanup_worker(worker);
+        free(context);
+        return -1;
     }
+    return 0;
 }
 
 static void cleanup_worker(struct gracht_worker* worker)
-- 
2.43.0


From 8c42a42664ba6248d9ba64cefeeb8eb69fb519d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:21 +0000
Subject: [PATCH 47/57] fix: a server that could not be created left threads,
 memory and a descriptor behind

---
 runtime/server.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index 347c193..19d8dd1 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -126,6 +126,7 @@ static void     client_enum_broadcast(int index, const void* element, void* user
 
 
 static int configure_server(struct gracht_server*, gracht_server_configuration_t*);
+static int gracht_server_shutdown(gracht_server_t*);
 
 int gracht_server_create(gracht_server_configuration_t* config, gracht_server_t** serverOut)
 {
@@ -145,19 +146,28 @@ int gracht_server_create(gracht_server_configuration_t* config, gracht_server_t*
     memset(server, 0, sizeof(gracht_server_t));
     server->set_handle = GRACHT_HANDLE_INVALID;
 
-    status = configure_server(server, config);
-    if (status) {
-        GRERROR(GRSTR("gracht_server_start: invalid configuration provided"));
+    // initialize static members of the instance
+    if (gr_hashtable_construct(&server->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp) ||
+        gr_hashtable_construct(&server->clients, 0, sizeof(struct client_wrapper), client_hash, client_cmp) ||
+        stack_construct(&server->bufferStack, 8)) {
+        gr_hashtable_destroy(&server->protocols);
+        gr_hashtable_destroy(&server->clients);
         free(server);
+        errno = ENOMEM;
         return -1;
     }
-
-    // initialize static members of the instance
     rwlock_init(&server->protocols_lock);
     rwlock_init(&server->clients_lock);
-    gr_hashtable_construct(&server->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp);
-    gr_hashtable_construct(&server->clients, 0, sizeof(struct client_wrapper), client_hash, client_cmp);
-    stack_construct(&server->bufferStack, 8);
+
+    status = configure_server(server, config);
+    if (status) {
+        GRERROR(GRSTR("gracht_server_start: invalid configuration provided"));
+        status = errno;
+        server->state = SHUTDOWN_REQUESTED;
+        gracht_server_shutdown(server);
+        errno = status;
+        return -1;
+    }
 
     // everything is set up - update state before registering control protocol
     server->state = RUNNING;
-- 
2.43.0


From 39be7f67630c968058cfd16faf9dad0a1a99efb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:45 +0000
Subject: [PATCH 48/57] fix: clients, services and calls that could not be kept
 track of were treated as if they were

---
 runtime/client.c | 11 ++++++++++-
 runtime/server.c | 23 ++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index 4e91387..798e1dd 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -81,6 +81,7 @@ static int __add_message(
         struct gracht_message_context*     context)
 {
     struct gracht_message_descriptor entry = { 0 };
+    int                              status;
     if (context == NULL) {
         errno = EINVAL;
         return -1;
@@ -91,8 +92,12 @@ static int __add_message(
 
     mtx_lock(&client->messages_lock);
     gr_hashtable_set(&client->messages, &entry);
+    status = gr_hashtable_get(&client->messages, &entry) ? 0 : -1;
     mtx_unlock(&client->messages_lock);
-    return 0;
+    if (status) {
+        errno = ENOMEM;
+    }
+    return status;
 }
 
 static void __remove_message(
@@ -606,6 +611,10 @@ int gracht_client_register_protocol(gracht_client_t* client, gracht_protocol_t*
     }
     
     gr_hashtable_set(&client->protocols, protocol);
+    if (!gr_hashtable_get(&client->protocols, protocol)) {
+        errno = ENOMEM;
+        return -1;
+    }
     return 0;
 }
 
diff --git a/runtime/server.c b/runtime/server.c
index 19d8dd1..d8dc12a 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -296,8 +296,16 @@ static int handle_connection(struct gracht_server* server, struct gracht_link* l
         .link = link,
         .client = client
     });
+    status = gr_hashtable_get(&server->clients, &(struct client_wrapper) { .handle = client->handle }) == NULL;
     rwlock_w_unlock(&server->clients_lock);
 
+    if (status) {
+        GRERROR(GRSTR("gracht_server: no memory to keep track of client"));
+        link->ops.server.destroy_client(client, server->set_handle);
+        errno = ENOMEM;
+        return -1;
+    }
+
     // invoke the new client callback at last
     if (server->callbacks.clientConnected) {
         server->callbacks.clientConnected(client->handle);
@@ -775,6 +783,8 @@ int gracht_server_broadcast_event(gracht_server_t* server, gracht_buffer_t* mess
 
 int gracht_server_register_protocol(gracht_server_t* server, gracht_protocol_t* protocol)
 {
+    int status;
+
     if (!server || !protocol) {
         errno = EINVAL;
         return -1;
@@ -792,8 +802,12 @@ int gracht_server_register_protocol(gracht_server_t* server, gracht_protocol_t*
         return -1;
     }
     gr_hashtable_set(&server->protocols, protocol);
+    status = gr_hashtable_get(&server->protocols, protocol) ? 0 : -1;
     rwlock_w_unlock(&server->protocols_lock);
-    return 0;
+    if (status) {
+        errno = ENOMEM;
+    }
+    return status;
 }
 
 void gracht_server_unregister_protocol(gracht_server_t* server, gracht_protocol_t* protocol)
@@ -924,8 +938,15 @@ void gracht_control_subscribe_invocation(const struct gracht_message* message, c
         // right now
         rwlock_w_lock(&message->server->clients_lock);
         gr_hashtable_set(&message->server->clients, &newEntry);
+        entry = gr_hashtable_get(&message->server->clients, &newEntry);
         rwlock_w_unlock(&message->server->clients_lock);
 
+        if (!entry) {
+            GRERROR(GRSTR("gracht_control_subscribe_invocation no memory to keep track of client"));
+            newEntry.link->ops.server.destroy_client(newEntry.client, message->server->set_handle);
+            return;
+        }
+
         if (message->server->callbacks.clientConnected) {
             message->server->callbacks.clientConnected(message->client);
         }
-- 
2.43.0


From 32156fb7e97f98a4c86cbe30a2399fb4647d7037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:45 +0000
Subject: [PATCH 49/57] fix: a client for which there was no memory was created
 nevertheless

---
 runtime/client.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index 798e1dd..1b83dd6 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -495,8 +495,11 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
     mtx_init(&client->send_buffer_lock, mtx_plain);
     mtx_init(&client->messages_lock, mtx_plain);
     cnd_init(&client->messages_event);
-    gr_hashtable_construct(&client->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp);
-    gr_hashtable_construct(&client->messages, 0, sizeof(struct gracht_message_descriptor), message_hash, message_cmp);
+    if (gr_hashtable_construct(&client->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp) ||
+        gr_hashtable_construct(&client->messages, 0, sizeof(struct gracht_message_descriptor), message_hash, message_cmp)) {
+        GRERROR(GRSTR("gracht_client: failed to allocate memory for client data"));
+        goto error;
+    }
 
     client->link = config->link;
     client->iod = GRACHT_CONN_INVALID;
-- 
2.43.0


From 221d2ecc6787516ac9a97ae61e0ca08e3386ae2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:56 +0000
Subject: [PATCH 50/57] fix: connections and links that could not be watched
 were kept, but never served

---
 runtime/link/socket/server.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index e6991ce..0dc87d5 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -364,7 +364,8 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         
         status = socket_aio_add(set_handle, link->base.connection);
         if (status) {
-            GRWARNING(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            GRERROR(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            goto error;
         }
 
 #ifdef _WIN32
@@ -409,7 +410,8 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         
         status = socket_aio_add(set_handle, link->base.connection);
         if (status) {
-            GRWARNING(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            GRERROR(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            goto error;
         }
 
 #ifdef _WIN32
@@ -519,7 +521,11 @@ static int socket_link_accept(
     
     status = socket_aio_add(set_handle, client->socket);
     if (status) {
-        GRWARNING(GRSTR("socket_link_accept failed to add socket to set_handle"));
+        GRERROR(GRSTR("socket_link_accept failed to add socket to set_handle"));
+        mtx_destroy(&client->send_lock);
+        close(client->socket);
+        free(client);
+        return -1;
     }
     
     *clientOut = &client->base;
-- 
2.43.0


From 3ef6dc1d6ae975dfb8d91041148ebe37ec8ed66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:17 +0000
Subject: [PATCH 51/57] fix: registering protocols with a client raced with
 another thread that received events

---
 runtime/client.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index 1b83dd6..34a07af 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -166,7 +166,10 @@ static int __invoke_action(gracht_client_t* client, struct gracht_buffer* messag
     uint8_t action   = GB_MSG_AID(message);
     GRTRACE(GRSTR("__invoke_action()"));
 
+    // other threads might be registering protocols
+    mtx_lock(&client->messages_lock);
     function = get_protocol_action(&client->protocols, protocol, action);
+    mtx_unlock(&client->messages_lock);
     if (!function) {
         // events of protocols that are not registered with the client are ignored
         GRTRACE(GRSTR("__invoke_action ignoring event %u:%u"), protocol, action);
@@ -608,17 +611,21 @@ gracht_conn_t gracht_client_iod(gracht_client_t* client)
 
 int gracht_client_register_protocol(gracht_client_t* client, gracht_protocol_t* protocol)
 {
+    int status;
+
     if (!client || !protocol) {
         errno = (EINVAL);
         return -1;
     }
     
+    mtx_lock(&client->messages_lock);
     gr_hashtable_set(&client->protocols, protocol);
-    if (!gr_hashtable_get(&client->protocols, protocol)) {
+    status = gr_hashtable_get(&client->protocols, protocol) ? 0 : -1;
+    mtx_unlock(&client->messages_lock);
+    if (status) {
         errno = ENOMEM;
-        return -1;
     }
-    return 0;
+    return status;
 }
 
 void gracht_client_unregister_protocol(gracht_client_t* client, gracht_protocol_t* protocol)
@@ -628,7 +635,9 @@ void gracht_client_unregister_protocol(gracht_client_t* client, gracht_protocol_
         return;
     }
     
+    mtx_lock(&client->messages_lock);
     gr_hashtable_remove(&client->protocols, protocol);
+    mtx_unlock(&client->messages_lock);
 }
 
 static uint32_t get_message_id(gracht_client_t* client)
-- 
2.43.0


From cc77ca4f3108ad1ac3341700919c4a384fd01f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:02 +0000
Subject: [PATCH 52/57] fix: connectionless clients whose addresses have the
 same checksum were taken for one another

---
 include/gracht/link/link.h   |  7 +++++
 runtime/link/socket/server.c | 11 +++++++-
 runtime/server.c             | 53 ++++++++++++++++++++++++++++++++++--
 3 files changed, 68 insertions(+), 3 deletions(-)

diff --git a/include/gracht/link/link.h b/include/gracht/link/link.h
index ad52090..c58f7df 100644
--- a/include/gracht/link/link.h
+++ b/include/gracht/link/link.h
@@ -53,6 +53,7 @@ typedef int (*server_send_client_fn)(struct gracht_server_client*, struct gracht
 
 typedef int (*server_link_recv_fn)(struct gracht_link*, struct gracht_message*, unsigned int flags);
 typedef int (*server_link_send_fn)(struct gracht_link*, struct gracht_message*, struct gracht_buffer*);
+typedef int (*server_is_sender_fn)(struct gracht_server_client*, const struct gracht_message*);
 
 typedef gracht_conn_t (*server_link_setup_fn)(struct gracht_link*, gracht_handle_t set_handle);
 typedef void          (*server_link_destroy_fn)(struct gracht_link*, gracht_handle_t set_handle);
@@ -80,6 +81,12 @@ struct server_link_ops {
      */
     server_link_setup_fn       setup;
     server_link_destroy_fn     destroy;
+
+    /**
+     * Optional, and only for packet links where the client handle of a message does not identify
+     * its sender beyond doubt. Returns non-zero if the message was sent by the client.
+     */
+    server_is_sender_fn is_sender;
 };
 
 // Client link API callbacks.
diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 0dc87d5..e8009b4 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -317,6 +317,13 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
     return 0;
 }
 
+static int socket_link_is_sender(struct socket_link_client* client, const struct gracht_message* message)
+{
+    const struct socket_link_sender* sender = (const struct socket_link_sender*)&message->payload[0];
+    return !client->streaming && client->address_length == sender->address_length &&
+        !memcmp(&client->address, &sender->address, (size_t)sender->address_length);
+}
+
 static int socket_link_destroy_client(struct socket_link_client* client, gracht_handle_t set_handle)
 {
     int status = 0;
@@ -605,7 +612,7 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
 
     // ->server is set by server
     context->link   = link->base.connection;
-    context->client = (int)addressCrc;
+    context->client = (int)(addressCrc | 0x80000000); // never the handle of a connection
     context->index  = sizeof(struct socket_link_sender);
     context->size   = (uint32_t)bytesRead + (uint32_t)sizeof(struct socket_link_sender);
 
@@ -677,6 +684,8 @@ void gracht_link_server_socket_api(struct gracht_link_socket* link)
     link->base.ops.server.recv    = (server_link_recv_fn)socket_link_recv_packet;
     link->base.ops.server.send    = (server_link_send_fn)socket_link_send_packet;
 
+    link->base.ops.server.is_sender = (server_is_sender_fn)socket_link_is_sender;
+
     link->base.ops.server.setup   = (server_link_setup_fn)socket_link_setup;
     link->base.ops.server.destroy = (server_link_destroy_fn)socket_link_destroy;
 }
diff --git a/runtime/server.c b/runtime/server.c
index d8dc12a..81ffea7 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -52,6 +52,11 @@ struct broadcast_context {
     unsigned int          flags;
 };
 
+struct sender_context {
+    struct gracht_message* message;
+    int                    found;
+};
+
 struct server_operations {
     void                   (*dispatch)(struct gracht_server*, struct gracht_message*);
     struct gracht_message* (*get_incoming_buffer)(struct gracht_server*);
@@ -85,6 +90,7 @@ typedef struct gracht_server {
     gr_hashtable_t                 clients;
     struct rwlock                  clients_lock;
     uint32_t                       session;
+    int                            handles_collided;
     struct link_table              link_table;
 } gracht_server_t;
 
@@ -123,6 +129,7 @@ static uint64_t client_hash(const void*);
 static int      client_cmp(const void*, const void*);
 static void     client_enum_destroy(int index, const void* element, void* userContext);
 static void     client_enum_broadcast(int index, const void* element, void* userContext);
+static void     client_enum_sender(int index, const void* element, void* userContext);
 
 
 static int configure_server(struct gracht_server*, gracht_server_configuration_t*);
@@ -376,6 +383,35 @@ static void put_message_mt(struct gracht_server* server, struct gracht_message*
     gracht_arena_free(server->arena, message, 0);
 }
 
+// Returns whether the message was sent by the client. Its handle alone does not tell, handles of connections
+// are reused and those of connection-less clients are derived from their address, which can collide.
+static int is_sender(const struct client_wrapper* entry, const struct gracht_message* message)
+{
+    if (entry->session || message->session) {
+        return entry->session == message->session;
+    }
+    return !entry->link->ops.server.is_sender || entry->link->ops.server.is_sender(entry->client, message);
+}
+
+// Makes sure that the handle of a received packet is not the one of another client.
+static void resolve_sender(struct gracht_server* server, struct gracht_message* message)
+{
+    struct sender_context  context = { .message = message };
+    struct client_wrapper* entry;
+
+    rwlock_r_lock(&server->clients_lock);
+    entry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = message->client });
+    if (server->handles_collided || (entry && !is_sender(entry, message))) {
+        gr_hashtable_enumerate(&server->clients, client_enum_sender, &context);
+        while (!context.found && entry) {
+            server->handles_collided = 1;
+            message->client = (gracht_conn_t)((unsigned int)message->client - 1);
+            entry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = message->client });
+        }
+    }
+    rwlock_r_unlock(&server->clients_lock);
+}
+
 static int handle_packet(struct gracht_server* server, struct gracht_link* link)
 {
     int status;
@@ -398,6 +434,7 @@ static int handle_packet(struct gracht_server* server, struct gracht_link* link)
             break;
         }
 
+        resolve_sender(server, message);
         server->ops->dispatch(server, message);
     }
     
@@ -563,7 +600,7 @@ void server_invoke_action(struct gracht_server* server, struct gracht_message* r
         // only notify the client that sent the request, the handle might have been reused since
         rwlock_r_lock(&server->clients_lock);
         entry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = recvMessage->client });
-        if (entry && entry->session == recvMessage->session) {
+        if (entry && is_sender(entry, recvMessage)) {
             gracht_control_event_error_single(server, recvMessage->client, messageId, ENOENT);
         }
         rwlock_r_unlock(&server->clients_lock);
@@ -698,7 +735,7 @@ int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t
 
     rwlock_r_lock(&messageContext->server->clients_lock);
     entry = gr_hashtable_get(&messageContext->server->clients, &(struct client_wrapper){ .handle = messageContext->client });
-    if (!entry) {
+    if (!entry || (!messageContext->session && !is_sender(entry, messageContext))) {
         struct gracht_link* link;
         
         rwlock_r_unlock(&messageContext->server->clients_lock);
@@ -1022,6 +1059,18 @@ static void client_enum_broadcast(int index, const void* element, void* userCont
     }
 }
 
+static void client_enum_sender(int index, const void* element, void* userContext)
+{
+    const struct client_wrapper* entry   = element;
+    struct sender_context*       context = userContext;
+    (void)index;
+
+    if (!entry->session && entry->link->ops.server.is_sender && is_sender(entry, context->message)) {
+        context->message->client = entry->handle;
+        context->found = 1;
+    }
+}
+
 static void client_enum_destroy(int index, const void* element, void* userContext)
 {
     const struct client_wrapper* entry  = element;
-- 
2.43.0


From 6329892549808e47444927488df38e21f700a50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:25 +0000
Subject: [PATCH 53/57] fix: do not send the response to a disconnected client
 through its stream link

The operations for connection-less messages have to be supported by packet links
only, so this called a null pointer for links that do not have them.
---
 runtime/server.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index 81ffea7..d0639dd 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -735,7 +735,13 @@ int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t
 
     rwlock_r_lock(&messageContext->server->clients_lock);
     entry = gr_hashtable_get(&messageContext->server->clients, &(struct client_wrapper){ .handle = messageContext->client });
-    if (!entry || (!messageContext->session && !is_sender(entry, messageContext))) {
+    if (messageContext->session && (!entry || entry->session != messageContext->session)) {
+        // the client that sent the request is gone, and the handle may now belong to someone else
+        rwlock_r_unlock(&messageContext->server->clients_lock);
+        errno = ENODEV;
+        status = -1;
+    }
+    else if (!entry || !is_sender(entry, messageContext)) {
         struct gracht_link* link;
         
         rwlock_r_unlock(&messageContext->server->clients_lock);
@@ -747,12 +753,6 @@ int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t
             status = -1;
         }
     }
-    else if (entry->session != messageContext->session) {
-        // the client that sent the request is gone, and the handle now belongs to someone else
-        rwlock_r_unlock(&messageContext->server->clients_lock);
-        errno = ENODEV;
-        status = -1;
-    }
     else {
         status = entry->link->ops.server.send_client(entry->client, message, GRACHT_MESSAGE_BLOCK);
         rwlock_r_unlock(&messageContext->server->clients_lock);
-- 
2.43.0


From 2750d7076c9211378a0ce6a13a78a9ae983a53cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 54/57] fix: a client of one packet link is not the sender of
 messages on another

The link of a known client was asked about messages it did not receive, and could
take their sender for its own client.
---
 runtime/server.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/server.c b/runtime/server.c
index d0639dd..9dd82c2 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -120,6 +120,8 @@ static struct server_operations g_mtOperations = {
     put_message_mt
 };
 
+static struct gracht_link* get_link_by_conn(struct gracht_server*, gracht_conn_t);
+
 static void client_destroy(struct gracht_server*, gracht_conn_t);
 static void client_subscribe(struct gracht_server_client*, uint8_t);
 static void client_unsubscribe(struct gracht_server_client*, uint8_t);
@@ -390,6 +392,9 @@ static int is_sender(const struct client_wrapper* entry, const struct gracht_mes
     if (entry->session || message->session) {
         return entry->session == message->session;
     }
+    if (entry->link != get_link_by_conn(message->server, message->link)) {
+        return 0;
+    }
     return !entry->link->ops.server.is_sender || entry->link->ops.server.is_sender(entry->client, message);
 }
 
-- 
2.43.0


From 0e16ed4f671b7f281455ed27de989758b8dbd5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 55/57] fix: a known client of a link that cannot tell its
 senders apart keeps its handle

As soon as handles of another link had collided its messages were taken for those of
a new client.
---
 runtime/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/server.c b/runtime/server.c
index 9dd82c2..9a4ea92 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -408,7 +408,7 @@ static void resolve_sender(struct gracht_server* server, struct gracht_message*
     entry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = message->client });
     if (server->handles_collided || (entry && !is_sender(entry, message))) {
         gr_hashtable_enumerate(&server->clients, client_enum_sender, &context);
-        while (!context.found && entry) {
+        while (!context.found && entry && !is_sender(entry, message)) {
             server->handles_collided = 1;
             message->client = (gracht_conn_t)((unsigned int)message->client - 1);
             entry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = message->client });
-- 
2.43.0


From 6f494ac969b8bbd0b98829b7577b889342244779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:50 +0000
Subject: [PATCH 56/57] fix: receiving before the connection was made does not
 break the connection

---
 runtime/client.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/client.c b/runtime/client.c
index 34a07af..765ac05 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -569,6 +569,11 @@ int gracht_client_connect(gracht_client_t* client)
         GRERROR(GRSTR("gracht_client: failed to connect client"));
         return -1;
     }
+
+    // receiving may have been attempted already
+    mtx_lock(&client->messages_lock);
+    client->connection_lost = 0;
+    mtx_unlock(&client->messages_lock);
     return 0;
 }
 
-- 
2.43.0


From a3813a7d5bfe504716f2d156bf0088c67176a83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:55 +0000
Subject: [PATCH 57/57] fix: events of descriptors that are not the server's
 are refused

---
 runtime/server.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/runtime/server.c b/runtime/server.c
index 9a4ea92..4ebe218 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -460,6 +460,15 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
 {
     int status;
     GRTRACE(GRSTR("handle_client_event %" F_CONN_T ", 0x%x"), handle, events);
+
+    // events of descriptors that are not owned by the server are not for us
+    rwlock_r_lock(&server->clients_lock);
+    status = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = handle }) ? 0 : -1;
+    rwlock_r_unlock(&server->clients_lock);
+    if (status) {
+        errno = ENOENT;
+        return -1;
+    }
     
     // Check for control event. On non-passive sockets, control event is the
     // disconnect event.
-- 
2.43.0

