From 5355c2551a2e3e8ffd7c8fa7bbe56efab87717e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 001/105] fix: do not treat bytes above 127 as the end of the
 stream

---
 src/message.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/message.c b/src/message.c
index 8be8510..c0566f2 100644
--- a/src/message.c
+++ b/src/message.c
@@ -74,7 +74,7 @@ int __is_valid_key(char* c, int len) {
     if (len > MAX_KEY_LENGTH) return 0;
 
     for (i = 0; i < len; i++) {
-        if (!(isalnum(c[i]) || c[i] == '.' || c[i] == '_')) return 0;
+        if (!(isalnum((unsigned char) c[i]) || c[i] == '.' || c[i] == '_')) return 0;
     }
 
     return 1;
@@ -295,7 +295,7 @@ static __INLINE int read_character(message_stream* stream) {
 
     stream->buffer_position++;
 
-    return chr;
+    return (unsigned char) chr;
 
 }
 
@@ -321,7 +321,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
         switch (stream->input.state) {
             case PARSE_STATE_TYPE: { // Parsing message type
 
-                if (isalnum(chr)) {
+                if (isalnum((unsigned char) chr)) {
 
                     buffer_push(stream->input.key_buffer, chr);
 
-- 
2.43.0


From ddb5a2de5b6b5cad3415de94c3b22f4036169421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 002/105] fix: report the end of the stream as an error, do not
 complete or repeat a message

---
 src/message.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/message.c b/src/message.c
index c0566f2..2ef2552 100644
--- a/src/message.c
+++ b/src/message.c
@@ -305,15 +305,17 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
 
     list_reset(arguments);
 
+    stream->input.message_type = -1;
+
     while (!stream->input.complete) {
 
     	char chr; 
     	int val = read_character(stream);
 
     	if (val < 0) {
-    		if (stream->input.message_type == -1) break;
-    		chr = '\n';
-    		stream->input.complete = TRUE;
+    		// A message whose line was not finished is not delivered
+    		stream->input.message_type = -1;
+    		break;
     	} else chr = (char) val;
 
         LOG_CHAR(log, chr);
-- 
2.43.0


From af2d19b39231e6f4be80b313c14d293a15876ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 003/105] fix: a skipped line does not take the next line or
 its arguments with it

---
 src/message.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/message.c b/src/message.c
index 2ef2552..c9f79aa 100644
--- a/src/message.c
+++ b/src/message.c
@@ -350,8 +350,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     free(key_tmp);
 
                     if (stream->input.message_type == -1) {
-                		stream->input.state = PARSE_STATE_PASS;
-                		stream->input.message_type = -1;
+                		// The line already ended here
+                		stream->input.state = -prefix_length;
                     } else {
                         stream->input.complete = TRUE;
                     }
@@ -377,7 +377,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 	stream->input.state = PARSE_STATE_PASS;
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
-                    buffer_push(stream->input.key_buffer, chr);             	
+                    list_reset(arguments);
+                    trax_properties_clear(properties);
                 }
 
                 break;
@@ -477,10 +478,13 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 	buffer_push(stream->input.key_buffer, chr);
                     stream->input.state = PARSE_STATE_UNQUOTED_KEY;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
+                    // The line already ended here
+                    stream->input.state = -prefix_length;
                     stream->input.message_type = -1;
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
+                    list_reset(arguments);
+                    trax_properties_clear(properties);
 
                 }
                 
@@ -496,10 +500,13 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     buffer_push(stream->input.value_buffer, chr);
                     stream->input.state = PARSE_STATE_UNQUOTED_VALUE;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
+                    // The line already ended here
+                    stream->input.state = -prefix_length;
                     stream->input.message_type = -1;
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
+                    list_reset(arguments);
+                    trax_properties_clear(properties);
                 }
                 
                 break;
@@ -560,10 +567,13 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 	buffer_push(stream->input.key_buffer, chr);
                     stream->input.state = PARSE_STATE_QUOTED_KEY;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
+                    // The line already ended here
+                    stream->input.state = -prefix_length;
                     stream->input.message_type = -1;
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
+                    list_reset(arguments);
+                    trax_properties_clear(properties);
 
                 }
                 
@@ -579,10 +589,13 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     buffer_push(stream->input.value_buffer, chr);
                     stream->input.state = PARSE_STATE_QUOTED_VALUE;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
+                    // The line already ended here
+                    stream->input.state = -prefix_length;
                     stream->input.message_type = -1;
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
+                    list_reset(arguments);
+                    trax_properties_clear(properties);
                 }
                 
                 break;
-- 
2.43.0


From 3aa8afdd67a6318c37e2eabe54ecdedea2404d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 004/105] fix: report failed sends, continue interrupted reads
 and writes

---
 src/message.c | 27 ++++++++++++++++++++-------
 src/message.h |  5 ++++-
 src/trax.c    | 40 ++++++++++++++++++++++++++++++++--------
 3 files changed, 56 insertions(+), 16 deletions(-)

diff --git a/src/message.c b/src/message.c
index c9f79aa..4aeb7ae 100644
--- a/src/message.c
+++ b/src/message.c
@@ -24,6 +24,7 @@
 #endif
 
 #include <ctype.h>
+#include <errno.h>
 
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER) 
 #include <winsock2.h>
@@ -268,6 +269,10 @@ static __INLINE int read_character(message_stream* stream) {
 
     if (stream->buffer_position >= stream->buffer_length) {
 
+        if (stream->flags & TRAX_STREAM_INPUT_FAILED) return -1;
+
+        do {
+
         if (stream->flags & TRAX_STREAM_SOCKET) {
 
 		    stream->buffer_length = recv(stream->socket.socket, stream->buffer, TRAX_BUFFER_SIZE, 0);
@@ -278,12 +283,12 @@ static __INLINE int read_character(message_stream* stream) {
            
         }
 
-        if (stream->buffer_length < 0) {
-            return -1; // An error has occured  
-        } 
+        } while (stream->buffer_length < 0 && errno == EINTR);
 
-		if (stream->buffer_length == 0) {
-            return -1; // The stream was closed
+        if (stream->buffer_length < 1) {
+            // An error has occured or the stream was closed
+            stream->flags |= TRAX_STREAM_INPUT_FAILED;
+            return -1;
         }
 
        // fprintf(stderr, "RCV: %*s \n", stream->buffer_length-1, stream->buffer);
@@ -638,6 +643,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
 }
 
 int write_buffer(message_stream* stream, const char* buf, int len, trax_logging* log) {
+    if (stream->flags & TRAX_STREAM_OUTPUT_FAILED) return -1;
+
     if (len < 1) return 1;
 
     if (stream->flags & TRAX_STREAM_SOCKET) {
@@ -651,6 +658,8 @@ int write_buffer(message_stream* stream, const char* buf, int len, trax_logging*
             int l = send(stream->socket.socket, buf+cnt, len-cnt, 0);
             #endif
             if(l == -1) {
+                if (errno == EINTR) continue;
+                stream->flags |= TRAX_STREAM_OUTPUT_FAILED;
                 return -1;
             }
             cnt += l;
@@ -663,6 +672,8 @@ int write_buffer(message_stream* stream, const char* buf, int len, trax_logging*
         while(cnt < len) {
             int l = write(stream->files.output, buf+cnt, len-cnt);
             if(l == -1) {
+                if (errno == EINTR) continue;
+                stream->flags |= TRAX_STREAM_OUTPUT_FAILED;
                 return -1;
             }
             cnt += l;
@@ -732,7 +743,7 @@ void __output_properties(const char *key, const char *value, const void *obj) {
 
 }
 
-void write_message(message_stream* stream, trax_logging* log, int type, const string_list* arguments, trax_properties* properties) {
+int write_message(message_stream* stream, trax_logging* log, int type, const string_list* arguments, trax_properties* properties) {
 
     int i;
 
@@ -762,7 +773,7 @@ void write_message(message_stream* stream, trax_logging* log, int type, const st
             OUTPUT_STRING("quit");
             break;
         default: {
-            return;
+            return -1;
         }
     }
 
@@ -790,5 +801,7 @@ void write_message(message_stream* stream, trax_logging* log, int type, const st
     OUTPUT_STRING("\n");
     LOG_BUFFER(log, NULL, 0); // Flush the log stream
 
+    return (stream->flags & TRAX_STREAM_OUTPUT_FAILED) ? -1 : 1;
+
 }
 
diff --git a/src/message.h b/src/message.h
index 412c00a..f66f191 100644
--- a/src/message.h
+++ b/src/message.h
@@ -7,6 +7,8 @@
 #define TRAX_STREAM_SOCKET 2
 #define TRAX_STREAM_SOCKET_LISTEN 8
 #define TRAX_STREAM_ASYNC 16
+#define TRAX_STREAM_INPUT_FAILED 32
+#define TRAX_STREAM_OUTPUT_FAILED 64
 
 #define TRAX_BUFFER_SIZE 4096
 
@@ -62,7 +64,8 @@ void destroy_message_stream(message_stream** stream);
 
 int read_message(message_stream* stream, trax_logging* log, string_list* arguments, trax_properties* properties);
 	
-void write_message(message_stream* stream, trax_logging* log, int type, const string_list* arguments, trax_properties* properties);
+// Returns 1 if the entire message was written and -1 otherwise, nothing is written after a failure
+int write_message(message_stream* stream, trax_logging* log, int type, const string_list* arguments, trax_properties* properties);
 
 #define LOG_STRING(L, S) { if ((L) && (L)->callback ) { (L)->callback(S, strlen(S), (L)->data); } }
 #define LOG_BUFFER(L, S, N) { if ((L) && (L)->callback ) { (L)->callback(S, N, (L)->data); } }
diff --git a/src/trax.c b/src/trax.c
index 9e8286f..6737da0 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -882,7 +882,10 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
     if (IS_VERSION_4(client)) {
         if (client->objects > 0) {
             // Reset object count with an empty initialize message
-            write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, NULL, NULL);
+            if (write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, NULL, NULL) < 1) {
+                set_error(client, "Unable to send message");
+                return TRAX_ERROR;
+            }
             client->objects = 0;
         }
         return trax_client_frame(client, images, objects, properties);
@@ -928,7 +931,10 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
         free(data);
     }
 
-    write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, arguments, properties);
+    if (write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, arguments, properties) < 1) {
+        set_error(client, "Unable to send message");
+        goto failure;
+    }
 
     list_destroy(&arguments);
 
@@ -986,7 +992,11 @@ int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_
                 free(data);
             }
 
-            write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, arguments, trax_object_list_properties(objects, i));
+            if (write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, arguments, trax_object_list_properties(objects, i)) < 1) {
+                set_error(client, "Unable to send message");
+                list_destroy(&arguments);
+                return TRAX_ERROR;
+            }
 
             list_destroy(&arguments);
 
@@ -1021,9 +1031,14 @@ int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_
             } 
         }
 
-        write_message((message_stream*)client->stream, &LOGGER(client), TRAX_FRAME, arguments, properties);
+        int status = write_message((message_stream*)client->stream, &LOGGER(client), TRAX_FRAME, arguments, properties);
         list_destroy(&arguments);
 
+        if (status < 1) {
+            set_error(client, "Unable to send message");
+            return TRAX_ERROR;
+        }
+
         return TRAX_OK;
     }
 
@@ -1380,10 +1395,15 @@ int trax_server_reply_sot(trax_handle* server, trax_region* region, trax_propert
 
     list_append_direct(arguments, data);
 
-    write_message((message_stream*)server->stream, &LOGGER(server), TRAX_STATE, arguments, properties);
+    int status = write_message((message_stream*)server->stream, &LOGGER(server), TRAX_STATE, arguments, properties);
 
     list_destroy(&arguments);
 
+    if (status < 1) {
+        set_error(server, "Unable to send message");
+        return TRAX_ERROR;
+    }
+
     return TRAX_OK;
 
 }
@@ -1422,8 +1442,12 @@ int trax_server_reply_mot(trax_handle* server, trax_object_list* objects) {
         if (!data) return TRAX_ERROR;
         arguments = list_create(1);
         list_append_direct(arguments, data);
-        write_message((message_stream*)server->stream, &LOGGER(server), TRAX_STATE, arguments, trax_object_list_properties(objects, i));
+        int status = write_message((message_stream*)server->stream, &LOGGER(server), TRAX_STATE, arguments, trax_object_list_properties(objects, i));
         list_destroy(&arguments);
+        if (status < 1) {
+            set_error(server, "Unable to send message");
+            return TRAX_ERROR;
+        }
     }
 
     return TRAX_OK;
@@ -1466,12 +1490,12 @@ int trax_terminate(trax_handle* handle, const char* reason) {
 
     handle->flags |= TRAX_FLAG_TERMINATED;
 
-    write_message((message_stream*)handle->stream, &LOGGER(handle), TRAX_QUIT, arguments, tmp_properties);
+    int status = write_message((message_stream*)handle->stream, &LOGGER(handle), TRAX_QUIT, arguments, tmp_properties);
 
     list_destroy(&arguments);
     trax_properties_release(&tmp_properties);
 
-    return TRAX_OK;
+    return (status < 1) ? TRAX_ERROR : TRAX_OK;
 
 }
 
-- 
2.43.0


From d419632f03368166eda331be56d0fd0044956ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 005/105] fix: format error messages with their own arguments

---
 src/trax.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 6737da0..f6ccff9 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -539,14 +539,17 @@ void clear_error(trax_handle* handle) {
 void set_error(trax_handle* handle, const char *format, ...) {
 	va_list args;
 
+    char message[512];
     string_buffer* buffer = buffer_create(100);
 
 	va_start(args, format);
 	
-    buffer_append(buffer, format, args);
+    vsnprintf(message, sizeof(message), format, args);
 
 	va_end(args);
 
+    buffer_append(buffer, "%s", message);
+
     if (handle->error) {
         free(handle->error);
     }
-- 
2.43.0


From 755bd70f72c109c488effe7fd6bb7510e4992ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 006/105] fix: restore the URL of an image where its scheme
 ends

---
 src/trax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index f6ccff9..90ae398 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -364,7 +364,7 @@ trax_image* image_decode(char* buffer) {
         result->data = (char*) malloc(sizeof(char) * (outlen));
         base64decode((unsigned char*)result->data, resource);
     } else {
-        *(resource--) = ':'; // Restore the semicolon and use the buffer as URL
+        *(resource - 1) = ':'; // Restore the semicolon and use the buffer as URL
         result = trax_image_create_url(buffer);
     }
     return result;
-- 
2.43.0


From 6fd354feb16968b003e7ab182de8c889ed9712f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 007/105] fix: decode exactly the bytes of an image and reject
 malformed ones

---
 src/trax.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 90ae398..ca3c8c0 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -324,6 +324,7 @@ trax_image* image_decode(char* buffer) {
 
         if (!resource) return NULL;
         format = decode_memory_format(token);
+        if (format == TRAX_IMAGE_MEMORY_ILLEGAL || strlen(resource) % 4 != 0) return NULL;
 
         outlen = base64decodelen(resource) - 1;
 
@@ -331,19 +332,23 @@ trax_image* image_decode(char* buffer) {
                 (format == TRAX_IMAGE_MEMORY_GRAY8 ? 1 :
                  (format == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 0));
         channels = format == TRAX_IMAGE_MEMORY_RGB ? 3 : 1;
-        allocated =  (width * height * depth * channels);
+        if (width < 1 || height < 1 || (double) width * height * depth * channels != outlen) return result;
 
-        if (width < 1 || height < 1 || outlen != allocated) return result;
+        allocated =  (width * height * depth * channels);
 
         result = (trax_image*) malloc(sizeof(trax_image));
         result->type = TRAX_IMAGE_MEMORY;
         result->width = width;
         result->height = height;
         result->format = format;
-        result->data = (char*) malloc(sizeof(char) * allocated);
+        // The decoder appends a zero
+        result->data = (char*) malloc(sizeof(char) * (allocated + 1));
         verify = base64decode((unsigned char*)result->data, resource);
 
-        assert(verify == allocated);
+        if (verify != allocated) {
+            trax_image_release(&result);
+            return NULL;
+        }
 
     } else if (strcmp(buffer, "data") == 0) {
         int format, outlen;
@@ -353,7 +358,9 @@ trax_image* image_decode(char* buffer) {
         resource = strntok(token, ';', 32);
         if (!resource) return NULL;
         format = decode_buffer_format(token);
-        outlen = base64decodelen(resource);
+        if (format == TRAX_IMAGE_BUFFER_ILLEGAL || strlen(resource) % 4 != 0) return NULL;
+        outlen = base64decodelen(resource) - 1;
+        if (outlen < 1) return NULL;
 
         result = (trax_image*) malloc(sizeof(trax_image));
         result->type = TRAX_IMAGE_BUFFER;
@@ -361,8 +368,12 @@ trax_image* image_decode(char* buffer) {
         result->height = 1;
         result->format = format;
 
-        result->data = (char*) malloc(sizeof(char) * (outlen));
-        base64decode((unsigned char*)result->data, resource);
+        // The decoder appends a zero
+        result->data = (char*) malloc(sizeof(char) * (outlen + 1));
+        if (base64decode((unsigned char*)result->data, resource) != outlen) {
+            trax_image_release(&result);
+            return NULL;
+        }
     } else {
         *(resource - 1) = ':'; // Restore the semicolon and use the buffer as URL
         result = trax_image_create_url(buffer);
-- 
2.43.0


From c45733803fceee74705ecefe4f2108cfbe8727f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 008/105] fix: rows of a memory image are as wide as the image

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index ca3c8c0..8ee5623 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1701,7 +1701,7 @@ char* trax_image_write_memory_row(trax_image* image, int row) {
     depth = MEMORY_DEPTH(image);
     channels = MEMORY_CHANNELS(image);
 
-    return &(image->data[depth * channels * row]);
+    return &(image->data[depth * channels * image->width * row]);
 }
 
 const char* trax_image_get_memory_row(const trax_image* image, int row) {
@@ -1714,7 +1714,7 @@ const char* trax_image_get_memory_row(const trax_image* image, int row) {
     depth = MEMORY_DEPTH(image);
     channels = MEMORY_CHANNELS(image);
 
-    return &(image->data[depth * channels * row]);
+    return &(image->data[depth * channels * image->width * row]);
 }
 
 const char* trax_image_get_buffer(const trax_image* image, int* length, int* format) {
-- 
2.43.0


From 0b29a80c7619ea2f9020c9f0517e5e629ff35493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 009/105] fix: bounds of the image list

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 8ee5623..d365f7b 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -2208,14 +2208,14 @@ void trax_image_list_release(trax_image_list** list) {
 
 trax_image* trax_image_list_get(const trax_image_list* list, int channel) {
     int i = TRAX_CHANNEL_INDEX(channel);
-    if (i < 0 || i > TRAX_CHANNELS) return NULL;
+    if (i < 0 || i >= TRAX_CHANNELS) return NULL;
 
     return list->images[i];
 }
 
 void trax_image_list_set(trax_image_list* list, trax_image* image, int channel) {
     int i = TRAX_CHANNEL_INDEX(channel);
-    if (i < 0 || i > TRAX_CHANNELS) return;
+    if (i < 0 || i >= TRAX_CHANNELS) return;
 
     list->images[i] = image;
 }
-- 
2.43.0


From 3ba4d51ade9207b3355f60ffacc62f3f797adec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 010/105] fix: an empty property has the default numeric value

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index d365f7b..2127a00 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -2036,7 +2036,7 @@ int trax_properties_has(const trax_properties* properties, const char* key) {
 int trax_properties_get_int(const trax_properties* properties, const char* key, int def) {
 
     char* end;
-    long ret;
+    long ret = def;
     char* value = trax_properties_get(properties, key);
 
     if (value == NULL) return def;
@@ -2055,7 +2055,7 @@ int trax_properties_get_int(const trax_properties* properties, const char* key,
 float trax_properties_get_float(const trax_properties* properties, const char* key, float def) {
 
     char* end;
-    float ret;
+    float ret = def;
     char* value = trax_properties_get(properties, key);
 
     if (value == NULL) return def;
-- 
2.43.0


From 18468052cffdabbf44683147cf5dc15af7212a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 011/105] fix: a socket connection attempt that is interrupted
 is completed, one that failed is not used

---
 src/message.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/message.c b/src/message.c
index 4aeb7ae..ad705dd 100644
--- a/src/message.c
+++ b/src/message.c
@@ -149,11 +149,21 @@ message_stream* create_message_stream_socket_connect(int port) {
 						 (const char *)&one, sizeof(int)) == -1) {
         perror("nodelay");
         closesocket(sid);
+        return NULL;
     }
 
 	while (1) {
 
 	    if (connect(sid, (const struct sockaddr *)&pin, sizeof(pin))) {
+            // An interrupted attempt goes on in the background
+            if (errno == EINTR || errno == EALREADY) {
+                fd_set writefds;
+                FD_ZERO(&writefds);
+                FD_SET(sid, &writefds);
+                select(sid + 1, NULL, &writefds, NULL, NULL);
+                continue;
+            }
+            if (errno == EISCONN) break;
             perror("connect"); // Wait a bit for connection ...
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER) 
             Sleep(1000);
-- 
2.43.0


From 1959c81f96777a99d35e44a821e871a767d9fc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 012/105] fix: accepting a connection goes on within its time
 limit when interrupted and does not use a failed result

---
 src/message.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/message.c b/src/message.c
index ad705dd..cb1d952 100644
--- a/src/message.c
+++ b/src/message.c
@@ -197,6 +197,7 @@ message_stream* create_message_stream_socket_accept(int server, int timeout) {
 	int asock=-1;
     int one = 1;
     message_stream* stream = NULL;
+    int status;
     struct timeval tv;
     tv.tv_sec = timeout;
     tv.tv_usec = 0;
@@ -208,15 +209,20 @@ message_stream* create_message_stream_socket_accept(int server, int timeout) {
 		return NULL;
 	}
 
+    while (1) {
+
 	FD_ZERO(&readfds);
 	FD_ZERO(&writefds);
 	FD_ZERO(&exceptfds);
 	FD_SET(server,&readfds);
 	FD_SET(server,&exceptfds);
 
-    select(server+1,&readfds,&writefds,&exceptfds,&tv);
+    // The time that remains is updated if the call is interrupted, a negative timeout is no timeout
+    status = select(server+1,&readfds,&writefds,&exceptfds, (timeout < 0) ? NULL : &tv);
+
+    if (status < 0 && errno == EINTR) continue;
 	
-	if(FD_ISSET(server,&readfds)) {
+	if(status > 0 && FD_ISSET(server,&readfds)) {
 		struct sockaddr_in pin;
 		int addrlen = sizeof(struct sockaddr_in);
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER) 
@@ -226,13 +232,22 @@ message_stream* create_message_stream_socket_accept(int server, int timeout) {
 		asock = (int) accept(server,(struct sockaddr *)&pin,
 												 (socklen_t *)&addrlen);
 #endif
+        if (asock == -1) {
+            if (errno == EINTR || errno == ECONNABORTED) continue;
+            perror("accept");
+            return NULL;
+        }
+        break;
 	} else {
         return NULL;
+    }
+
     }
 
 	if (setsockopt(asock, IPPROTO_TCP , TCP_NODELAY,
 						 (const char *)&one, sizeof(int)) == -1) {
         perror("nodelay");
+        closesocket(asock);
         return NULL;
     }
 
-- 
2.43.0


From e429aa535dc920fc46e550210fc0901e644c9dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 013/105] fix: initialize the metadata flags of a server for
 all protocol versions

---
 src/trax.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 2127a00..f5e2cbd 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -661,7 +661,7 @@ trax_handle* server_setup(trax_metadata *metadata, message_stream* stream, const
     trax_properties* properties;
     trax_handle* server = (trax_handle*) malloc(sizeof(trax_handle));
     string_list* arguments;
-    int flags;
+    int flags = 0;
     char tmp[BUFFER_LENGTH];
 
     server->flags = (TRAX_FLAG_SERVER) | TRAX_FLAG_VALID;
@@ -701,7 +701,6 @@ trax_handle* server_setup(trax_metadata *metadata, message_stream* stream, const
         trax_properties_set(properties, "trax.family", metadata->tracker_family);
 
     if (IS_VERSION_4(server)) {
-        flags = 0;
         if (metadata->flags & TRAX_METADATA_MULTI_OBJECT) {
             flags |= TRAX_METADATA_MULTI_OBJECT;
             trax_properties_set_int(properties, "trax.multiobject", 1);
-- 
2.43.0


From d88907c4db3bb354da144f56d6c7d31f4eae67db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 014/105] fix: the setup of a server without a connection fails

---
 src/trax.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index f5e2cbd..923d235 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -659,11 +659,15 @@ failure:
 trax_handle* server_setup(trax_metadata *metadata, message_stream* stream, const trax_logging log, int version) {
 
     trax_properties* properties;
-    trax_handle* server = (trax_handle*) malloc(sizeof(trax_handle));
+    trax_handle* server;
     string_list* arguments;
     int flags = 0;
     char tmp[BUFFER_LENGTH];
 
+    if (!stream) return NULL; // The connection could not be established
+
+    server = (trax_handle*) malloc(sizeof(trax_handle));
+
     server->flags = (TRAX_FLAG_SERVER) | TRAX_FLAG_VALID;
     server->logging = log;
     server->error = NULL;
-- 
2.43.0


From 2b52037cd669ba918bfaee4e5fe19c2651e21fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 015/105] fix: defaults for formats and channels that are not
 declared, reject unknown ones

---
 src/trax.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 923d235..1988556 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -604,24 +604,33 @@ trax_handle* client_setup(message_stream* stream, const trax_logging log) {
     client->version = trax_properties_get_int(tmp_properties, "trax.version", 1);
 
     tmp = trax_properties_get(tmp_properties, "trax.region");
-    region_formats = region_formats_decode(tmp);
+    region_formats = tmp ? region_formats_decode(tmp) : 0;
     free(tmp);
+    if (region_formats == 0)
+        region_formats = TRAX_REGION_RECTANGLE;
 
     tmp = trax_properties_get(tmp_properties, "trax.image");
-    image_formats = image_formats_decode(tmp);
+    image_formats = tmp ? image_formats_decode(tmp) : 0;
     free(tmp);
+    if (image_formats == 0)
+        image_formats = TRAX_IMAGE_PATH;
 
     // Multiple channels are only supported in TraX protocol version 2
     if (client->version < 2) {
         channels = TRAX_CHANNEL_COLOR;
     } else {
         tmp = trax_properties_get(tmp_properties, "trax.channels");
-        channels = channels_decode(tmp);
+        channels = tmp ? channels_decode(tmp) : 0;
         free(tmp);
         if (channels == 0)
             channels = TRAX_CHANNEL_COLOR;
     }
 
+    if (region_formats < 0 || image_formats < 0 || channels < 0) {
+        DEBUGMSG("Unknown format or channel declared.");
+        goto failure;
+    }
+
     tracker_name = trax_properties_get(tmp_properties, "trax.name");
     tracker_description = trax_properties_get(tmp_properties, "trax.description");
     tracker_family = trax_properties_get(tmp_properties, "trax.family");
-- 
2.43.0


From bfd50c75e32c8c4d38febc3c1f904f67447c5d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 016/105] fix: release the message stream when the setup of a
 client fails

---
 src/trax.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trax.c b/src/trax.c
index 1988556..890ce62 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -660,6 +660,7 @@ failure:
 
     list_destroy(&arguments);
     trax_properties_release(&tmp_properties);
+    destroy_message_stream((message_stream**) &client->stream);
     free(client);
     return NULL;
 
-- 
2.43.0


From 0c9e38f1b0be5a552423964d2844909c9d6dfd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 017/105] fix: parsing of format lists does not share its
 position among threads

---
 src/trax.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 890ce62..3ef7d0d 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -54,6 +54,7 @@
 
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
 #include <io.h>
+#define strtok_r strtok_s
 int get_shared_fd(int h, int read) {
     return _open_osfhandle((intptr_t)h, read ? _O_RDONLY : 0);
 }
@@ -386,8 +387,8 @@ int image_formats_decode(char *str) {
 
     int formats = 0;
 
-    char *pch;
-    pch = strtok (str, " ;");
+    char *pch, *position;
+    pch = strtok_r (str, " ;", &position);
     while (pch != NULL) {
         if (strcmp(pch, "path") == 0)
             formats |= TRAX_IMAGE_PATH;
@@ -401,7 +402,7 @@ int image_formats_decode(char *str) {
             continue; // Skip empty
         else return -1;
 
-        pch = strtok (NULL, ";");
+        pch = strtok_r (NULL, ";", &position);
     }
 
     return formats;
@@ -432,8 +433,8 @@ int region_formats_decode(char *str) {
 
     int formats = 0;
 
-    char *pch;
-    pch = strtok (str, " ;");
+    char *pch, *position;
+    pch = strtok_r (str, " ;", &position);
     while (pch != NULL) {
 
         if (strcmp(pch, "rectangle") == 0)
@@ -446,7 +447,7 @@ int region_formats_decode(char *str) {
             continue; // Skip empty
         else return -1;
 
-        pch = strtok (NULL, ";");
+        pch = strtok_r (NULL, ";", &position);
     }
 
     return formats;
@@ -489,8 +490,8 @@ int channels_decode(char *str) {
 
     int channels = 0;
 
-    char *pch;
-    pch = strtok (str, " ;");
+    char *pch, *position;
+    pch = strtok_r (str, " ;", &position);
     while (pch != NULL) {
 
         if (strcmp(pch, "color") == 0)
@@ -504,7 +505,7 @@ int channels_decode(char *str) {
             continue; // Skip empty
         else return -1;
 
-        pch = strtok (NULL, ";");
+        pch = strtok_r (NULL, ";", &position);
     }
 
     return channels;
-- 
2.43.0


From 56ed454082d1c1d6e8a60c302bb1e9a14eed8336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 018/105] fix: waiting for states fails on an unexpected
 message or an empty region and returns no objects then

---
 src/trax.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 3ef7d0d..7b611e0 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -810,6 +810,11 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
         return TRAX_ERROR;
     }
 
+    if (client->objects < 1) {
+        set_error(client, "No objects are tracked");
+        return TRAX_ERROR;
+    }
+
     (*objects) = trax_object_list_create(client->objects);
 
     for (int i = 0; i < client->objects; i++) {
@@ -830,7 +835,7 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
                 break;
             }
             
-            if (!region_parse(arguments->buffer[0], &_region)) {
+            if (!region_parse(arguments->buffer[0], &_region) || !_region) {
                 list_destroy(&arguments);
                 trax_properties_release(&tmp_properties);
                 trax_object_list_release(objects);
@@ -861,7 +866,9 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
             trax_properties_release(&tmp_properties);
             trax_object_list_release(objects);
             break;
-        } else if (result == TRAX_ERROR) {
+        } else {
+            // Anything else is not expected from a server
+            result = TRAX_ERROR;
             list_destroy(&arguments);
             trax_properties_release(&tmp_properties);
             trax_object_list_release(objects);
-- 
2.43.0


From c3649ce593939ae7a5a47cbdb01629ca32811c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 019/105] fix: a request without a required image is refused
 before anything is sent

---
 src/trax.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/trax.c b/src/trax.c
index 7b611e0..745f12e 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -884,6 +884,20 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
 
 }
 
+static int verify_channels(trax_handle* client, trax_image_list* images) {
+
+    int i;
+
+    for (i = 0; i < TRAX_CHANNELS; i++) {
+        if (TRAX_SUPPORTS(client->metadata->channels, TRAX_CHANNEL_ID(i)) && !images->images[i]) {
+            set_error(client, "Required image channel not provided (ID: %d)", TRAX_CHANNEL_ID(i));
+            return 0;
+        }
+    }
+
+    return 1;
+}
+
 int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties) {
 
     char* data = NULL;
@@ -915,6 +929,8 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
     }
 
     if (IS_VERSION_4(client)) {
+        if (!verify_channels(client, images)) return TRAX_ERROR;
+
         if (client->objects > 0) {
             // Reset object count with an empty initialize message
             if (write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, NULL, NULL) < 1) {
@@ -1006,6 +1022,8 @@ int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_
             return TRAX_ERROR;
         }
 
+        if (!verify_channels(client, images)) return TRAX_ERROR;
+
         for (i = 0; i < n; i++) {
             char* data = NULL;
             string_list* arguments;
-- 
2.43.0


From d7dee688db4eff0d3887a73b0398df80b500c7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 020/105] fix: an empty region does not initialize a tracker

---
 src/trax.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 745f12e..140917a 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1228,7 +1228,8 @@ int trax_server_wait_sot(trax_handle* server, trax_image_list** images, trax_reg
 
         }
 
-        if (!region_parse(arguments->buffer[j], (region_container**)region)) {
+        if (!region_parse(arguments->buffer[j], (region_container**)region) || !*region) {
+            set_error(server, "Protocol error, illegal region");
             goto failure;
         }
 
-- 
2.43.0


From 46e00fbac4a92d60adc151e32d74d62c2e639ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 021/105] fix: the multi-object wait handles resets, quits and
 unexpected messages without losing memory or objects

---
 src/trax.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 140917a..8d1ac2c 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1282,6 +1282,15 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
 
     if (!HANDLE_ALIVE(server)) {
         set_error(server, "Server not alive");
+        free(object_regions);
+        free(object_properties);
+        return TRAX_ERROR;
+    }
+
+    if (!IS_VERSION_4(server)) {
+        set_error(server, "Invalid mode");
+        free(object_regions);
+        free(object_properties);
         return TRAX_ERROR;
     }
 
@@ -1293,7 +1302,8 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
 
         int code = read_message((message_stream*)server->stream, &LOGGER(server), arguments, tmp_properties);
 
-        if (code == TRAX_ERROR) {
+        if (code != TRAX_QUIT && code != TRAX_FRAME && code != TRAX_INITIALIZE) {
+            // Anything else is not expected from a client
             goto failure;
         }
 
@@ -1305,7 +1315,14 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
             }   
 
             if (properties)
-                copy_properties(tmp_properties, properties, COPY_EXTERNAL | COPY_OVERWRITE);
+                copy_properties(tmp_properties, properties, COPY_ALL | COPY_OVERWRITE);
+
+            // Objects that were announced are not going to be tracked
+            for (i = 0; i < object_count; i++) {
+                trax_region_release(&(object_regions[i]));
+                trax_properties_release(&(object_properties[i]));
+            }
+            object_count = 0;
 
             result = TRAX_QUIT;
             server->flags |= TRAX_FLAG_TERMINATED;
@@ -1351,6 +1368,13 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
             if (list_size(arguments) == 0) {
                 result = TRAX_INITIALIZE;
                 server->objects = 0;
+                for (i = 0; i < object_count; i++) {
+                    trax_region_release(&(object_regions[i]));
+                    trax_properties_release(&(object_properties[i]));
+                }
+                object_count = 0;
+                list_destroy(&arguments);
+                trax_properties_release(&tmp_properties);
                 continue;
             }
 
@@ -1367,7 +1391,10 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
                 object_properties = (trax_properties**) realloc(object_properties, sizeof(trax_properties*) * object_capacity);
             }
 
-            if (!region_parse(arguments->buffer[0], (region_container**)(&object_regions[object_count-1]))) {
+            object_regions[object_count-1] = NULL;
+
+            if (!region_parse(arguments->buffer[0], (region_container**)(&object_regions[object_count-1])) || !object_regions[object_count-1]) {
+                set_error(server, "Protocol error, illegal region");
                 object_count--;
                 goto failure;
             }
-- 
2.43.0


From 33aa25821579f2b13c96352715548c54aa684f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 022/105] fix: numbers of a region string keep their precision,
 empty elements have their place

---
 src/region.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/region.c b/src/region.c
index cae061b..82a7266 100644
--- a/src/region.c
+++ b/src/region.c
@@ -51,7 +51,7 @@ int region_clear_flags(int mask) {
 
 }
 
-int __is_valid_sequence(float* sequence, int len) {
+int __is_valid_sequence(double* sequence, int len) {
 	int i;
 
 	for (i = 0; i < len; i++) {
@@ -285,11 +285,11 @@ static inline const char* _str_find(const char* in, const char delimiter) {
 
 }
 
-int _parse_sequence(const char* buffer, float** data) {
+int _parse_sequence(const char* buffer, double** data) {
 
 	int i;
 
-	float* numbers = (float*) malloc(sizeof(float) * (strlen(buffer)));
+	double* numbers = (double*) malloc(sizeof(double) * (strlen(buffer) + 1));
 
 	const char* pch = buffer;
 	for (i = 0; ; i++) {
@@ -299,10 +299,10 @@ int _parse_sequence(const char* buffer, float** data) {
 			if (tolower(pch[0]) == 'n' && tolower(pch[1]) == 'a' && tolower(pch[2]) == 'n') {
 				numbers[i] = NAN;
 			} else {
-				numbers[i] = (float) atof(pch);
+				numbers[i] = atof(pch);
 			}
 #else
-			numbers[i] = (float) atof(pch);
+			numbers[i] = atof(pch);
 #endif
 		} else
 			break;
@@ -312,7 +312,7 @@ int _parse_sequence(const char* buffer, float** data) {
 
 	if (i > 0) {
 		int j;
-		*data = (float*) malloc(sizeof(float) * i);
+		*data = (double*) malloc(sizeof(double) * i);
 		for (j = 0; j < i; j++) { (*data)[j] = numbers[j]; }
 		free(numbers);
 	} else {
@@ -325,7 +325,7 @@ int _parse_sequence(const char* buffer, float** data) {
 
 int region_parse(const char* buffer, region_container** region) {
 
-	float* data = NULL;
+	double* data = NULL;
 	const char* strdata = NULL;
 	int num;
 
-- 
2.43.0


From 2e90b7a2a26c5552fe75e29f3ac935087974c375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 023/105] fix: reject region strings with a wrong number of
 elements or an impossible mask, accept an empty mask

---
 src/region.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/region.c b/src/region.c
index 82a7266..6028a87 100644
--- a/src/region.c
+++ b/src/region.c
@@ -1,6 +1,7 @@
 
 #include <stdio.h>
 #include <float.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include <math.h>
@@ -368,7 +369,7 @@ int region_parse(const char* buffer, region_container** region) {
 
 	switch (prefix_type) {
 	case SPECIAL: {
-		assert(num == 1);
+		if (num != 1) break;
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = SPECIAL;
 		(*region)->data.special = (int) data[0];
@@ -377,7 +378,7 @@ int region_parse(const char* buffer, region_container** region) {
 
 	}
 	case RECTANGLE: {
-		assert(num == 4);
+		if (num != 4) break;
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = RECTANGLE;
 
@@ -393,7 +394,7 @@ int region_parse(const char* buffer, region_container** region) {
 	case POLYGON: {
 		int j;
 
-		assert(num >= 6 && num % 2 == 0);
+		if (num < 6 || num % 2 != 0) break;
 
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = POLYGON;
@@ -416,7 +417,7 @@ int region_parse(const char* buffer, region_container** region) {
 		int position, length;
 		char value;
 
-		assert(num > 4);
+		if (num < 4 || data[2] < 1 || data[3] < 1 || data[2] * data[3] > INT_MAX) break;
 
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = MASK;
@@ -429,6 +430,12 @@ int region_parse(const char* buffer, region_container** region) {
 		length = (*region)->data.mask.width * (*region)->data.mask.height;
 		(*region)->data.mask.data = (char*) malloc(sizeof(char) * length);
 
+		if (!(*region)->data.mask.data) {
+			free(*region);
+			(*region) = NULL;
+			break;
+		}
+
 		value = 0;
 		position = 0;
 
-- 
2.43.0


From d38f190a1320e977e0e615591ee0da57fe8e1585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 024/105] fix: conversion of polygons to rectangles and masks

---
 src/region.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/region.c b/src/region.c
index 6028a87..7439dd5 100644
--- a/src/region.c
+++ b/src/region.c
@@ -559,9 +559,9 @@ region_container* region_convert(const region_container* region, region_type typ
 		case POLYGON: {
 
 			float top = FLT_MAX;
-			float bottom = FLT_MIN;
+			float bottom = -FLT_MAX;
 			float left = FLT_MAX;
-			float right = FLT_MIN;
+			float right = -FLT_MAX;
 			int i;
 
 			for (i = 0; i < region->data.polygon.count; i++) {
@@ -677,14 +677,11 @@ region_container* region_convert(const region_container* region, region_type typ
 		}
 		case POLYGON: {
 
-			reg = (region_container*) malloc(sizeof(region_container));
-			reg->type = type;
+			region_bounds b = bounds_round(compute_bounds_polygon(&(region->data.polygon)));
 
-			region_bounds b = compute_bounds_polygon(&(region->data.polygon));
+			reg = region_create_mask(b.left, b.top, b.right - b.left + 1, b.bottom - b.top + 1);
 
-			reg = region_create_mask(b.left, b.right, b.right - b.left, b.bottom - b.top);
-
-			region_get_mask_offset(region, reg->data.mask.data, b.left, b.right, b.right - b.left, b.bottom - b.top);
+			region_get_mask_offset(region, reg->data.mask.data, b.left, b.top, b.right - b.left + 1, b.bottom - b.top + 1);
 
 			break;
 		}
-- 
2.43.0


From fac92db13db4de95262db5c4fe15900ac4f277eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 025/105] fix: assigning a wrapped object to itself does not
 release it

---
 src/traxpp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 67c2b27..93f0a00 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -72,6 +72,7 @@ Wrapper::~Wrapper() {
 }
 
 void Wrapper::acquire(const Wrapper& lhs) {
+	if (this == &lhs) return;
 	release();
 	pn = lhs.pn;
 	acquire();
-- 
2.43.0


From 52ad71b752796ce88e378671254cac310e17ef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 026/105] fix: image and object lists are counted from the
 start and not changed through their copies

---
 src/traxpp.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 93f0a00..f72a2f7 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -611,9 +611,7 @@ ObjectList::ObjectList() {
 }
 
 ObjectList::ObjectList(int count) {
-	list = trax_object_list_create(count);
-	_regions.resize(count);
-	_properties.resize(count);
+	wrap(trax_object_list_create(count));
 }
 
 ObjectList::ObjectList(const ObjectList& original) : Wrapper(original) {
@@ -654,6 +652,17 @@ Region ObjectList::get(int index) const {
 }
 
 void ObjectList::set(int index, Region region) {
+	if (claims() > 1) {
+		// Other copies keep their own regions
+		ObjectList copy(size());
+		for (int i = 0; i < size(); i++) {
+			copy._regions[i] = _regions[i];
+			copy._properties[i] = _properties[i];
+			copy.list->regions[i] = list->regions[i];
+			copy.list->properties[i] = list->properties[i];
+		}
+		*this = std::move(copy);
+	}
 	_regions[index] = region;
 	list->regions[index] = region.region;
 	// Do not use C function as it will try to free old region
@@ -700,6 +709,7 @@ void ObjectList::wrap(trax_object_list* obj) {
 ImageList::ImageList()  {
 	list = trax_image_list_create();
 	images.resize(TRAX_CHANNELS);
+	acquire();
 }
 
 ImageList::ImageList(const ImageList& original)  : Wrapper(original) {
@@ -744,6 +754,16 @@ bool ImageList::has(int channel) const {
 
 void ImageList::set(Image image, int channel) {
 
+	if (claims() > 1) {
+		// Other copies keep their own images
+		ImageList copy;
+		for (int i = 0; i < TRAX_CHANNELS; i++) {
+			copy.images[i] = images[i];
+			copy.list->images[i] = list->images[i];
+		}
+		*this = std::move(copy);
+	}
+
 	images[TRAX_CHANNEL_INDEX(channel)] = image;
 	list->images[TRAX_CHANNEL_INDEX(channel)] = image.image;
 
-- 
2.43.0


From 029627dd10a1bb31044e0718d509b3ed699181f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 027/105] fix: release the objects of a multi-object wait

---
 src/traxpp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index f72a2f7..557e6bc 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -458,6 +458,7 @@ int ServerMOT::wait(ImageList& image, Region& region, Properties& properties) {
 			region.wrap(tregion);
 			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 0);
 		}
+		trax_object_list_release(&tobjects);
 	}
 
 	return result;
@@ -482,6 +483,8 @@ int ServerMOT::reply(const Region& region, const Properties& properties) {
 
 int ServerMOT::wait(ImageList& image, ObjectList& objects, Properties& properties) {
 
+	if (!claims()) return -1;
+
 	trax_object_list* tobjects = NULL;
     trax_image_list* timagelist = NULL;
 
-- 
2.43.0


From 2127a4353523d8864a3305acea34de81f48713bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 028/105] fix: metadata of a handle includes its custom
 properties

---
 src/traxpp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 557e6bc..5b8b7a0 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -138,6 +138,8 @@ Metadata::Metadata(trax_metadata* metadata) {
     wrap(trax_metadata_create(metadata->format_region, metadata->format_image, metadata->channels,
 		metadata->tracker_name, metadata->tracker_description, metadata->tracker_family, metadata->flags));
 
+    trax_properties_append(metadata->custom, this->metadata->custom, 1);
+
 }
 
 Metadata::~Metadata() {
-- 
2.43.0


From 07df0fe402b536e49cd253a3bb5700df091ea47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 029/105] fix: load images of the channels and in the format a
 tracker declared

---
 support/client/cli.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index d47e39c..cc9afe4 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -640,7 +640,7 @@ int main( int argc, char** argv) {
                 Metadata metadata = tracker.metadata();
 
                 Region initialize = initialization[frame];
-                ImageList image = load_images(images[frame], metadata.image_formats(), metadata.channels());
+                ImageList image = load_images(images[frame], metadata.channels(), metadata.image_formats());
 
                 // Start timing a frame
                 double timing_elapsed;
@@ -710,7 +710,7 @@ int main( int argc, char** argv) {
                     if (frame >= images.size()) break;
 
                     print_debug("Loading frame images.\n");
-                    ImageList image = load_images(images[frame], metadata.image_formats(), metadata.channels());
+                    ImageList image = load_images(images[frame], metadata.channels(), metadata.image_formats());
 
                     // Start timing a frame
                     timing_start = timer_clock();
-- 
2.43.0


From ed1e8223998fddcfa823b8aa224ccaf2ee62cbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 030/105] fix: a received image list has only the received
 images

---
 src/traxpp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 5b8b7a0..a11fff0 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -801,8 +801,10 @@ void ImageList::wrap(trax_image_list* obj) {
 	list = obj;
 	if (list) acquire();
 
-	for (int i = 0; i < TRAX_CHANNELS; i++)
+	for (int i = 0; i < TRAX_CHANNELS; i++) {
+		images[i] = Image();
 		images[i].wrap(obj->images[i]);
+	}
 
 }
 
-- 
2.43.0


From b7ade20f2a38e8e8752298852284ea66b0318b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 031/105] fix: clearing shared properties detaches from them

---
 src/traxpp.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index a11fff0..a8f37ff 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -1084,9 +1084,10 @@ int Properties::size() const {
 
 void Properties::clear()  {
 	if (!properties) return;
-	if (claims() > 1)
+	if (claims() > 1) {
 		release();
-	else
+		properties = NULL;
+	} else
 		trax_properties_clear(properties);
 }
 
-- 
2.43.0


From 0692babb7b28fc3f4104c1061d4f49db612fadfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 032/105] fix: a moved-from C++ object does not keep an invalid
 pointer

---
 src/traxpp.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index a8f37ff..f92b651 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -525,6 +525,7 @@ Image::Image(const Image& original) : Wrapper(original) {
 
 Image::Image(Image&& original) : Wrapper(std::move(original)) {
 	image = original.image;
+	original.image = NULL;
 }
 
 Image& Image::operator=(const Image& lhs) throw() {
@@ -625,7 +626,7 @@ ObjectList::ObjectList(const ObjectList& original) : Wrapper(original) {
 	_properties = original._properties;
 }
 
-ObjectList::ObjectList(ObjectList&& original) : Wrapper(std::move(original)) {
+ObjectList::ObjectList(ObjectList&& original) : Wrapper(std::move(original)), list(NULL) {
 	std::swap(list, original.list);
 	std::swap(_regions, original._regions);
 	std::swap(_properties, original._properties);
@@ -722,7 +723,7 @@ ImageList::ImageList(const ImageList& original)  : Wrapper(original) {
 	images = original.images;
 }
 
-ImageList::ImageList(ImageList&& original)  : Wrapper(std::move(original)) {
+ImageList::ImageList(ImageList&& original)  : Wrapper(std::move(original)), list(NULL) {
 	std::swap(list, original.list);
 	std::swap(images, original.images);
 }
@@ -817,7 +818,7 @@ Region::Region(const Region& original) : Wrapper(original) {
 	region = original.region;
 }
 
-Region::Region(Region&& original) : Wrapper(std::move(original)) {
+Region::Region(Region&& original) : Wrapper(std::move(original)), region(NULL) {
 	std::swap(region, original.region);
 }
 
@@ -1063,7 +1064,7 @@ Properties::Properties(const Properties& original) : Wrapper(original) {
 	properties = original.properties;
 }
 
-Properties::Properties(Properties&& original) : Wrapper(std::move(original)) {
+Properties::Properties(Properties&& original) : Wrapper(std::move(original)), properties(NULL) {
 	std::swap(properties, original.properties);
 }
 
-- 
2.43.0


From 2bf64f9891f41281787d38409e0dd0b0da8dfd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 033/105] fix: the scheme of an image URL may contain digits

---
 src/trax.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trax.c b/src/trax.c
index 8d1ac2c..c73bed8 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -118,6 +118,8 @@ char* parse_uri(char* buffer) {
     for (; i < MAX_URI_SCHEME; i++) {
         if ((buffer[i] >= 'a' && buffer[i] <= 'z') || buffer[i] == '+' || buffer[i] == '.' || buffer[i] == '-') continue;
 
+        if (i > 0 && buffer[i] >= '0' && buffer[i] <= '9') continue;
+
         if (buffer[i] == ':') {
             buffer[i] = 0; // Insert a stop char so that we can compare the prefix
             return buffer + i + 1;
-- 
2.43.0


From 1738fd51746f3a8cc4d6852e2c43d4285fcaac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:39 +0000
Subject: [PATCH 034/105] fix: a single-object reply of the C++ server sends
 its properties

---
 src/traxpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index f92b651..83a69d2 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -473,7 +473,7 @@ int ServerMOT::reply(const Region& region, const Properties& properties) {
 
 	trax_object_list* objects = trax_object_list_create(1);
 	trax_object_list_set(objects, 0, region.region);
-	trax_properties_append(trax_object_list_properties(objects, 0), properties.properties, 0);
+	trax_properties_append(properties.properties, trax_object_list_properties(objects, 0), 1);
 
 	int result = trax_server_reply_mot(handle, objects);
 
-- 
2.43.0


From 31eecad221100d4e407b8337bfbd34c9ff6d2b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 035/105] fix: Properties declares a move assignment, define it

---
 src/traxpp.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 83a69d2..9a97f28 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -1074,6 +1074,12 @@ Properties& Properties::operator=(const Properties& original) throw() {
 	return *this;
 }
 
+Properties& Properties::operator=(Properties&& original) throw() {
+	swap(original);
+	std::swap(properties, original.properties);
+	return *this;
+}
+
 Properties::~Properties() {
 	release();
 }
-- 
2.43.0


From 4e48de61ff17fd96b1ffad6ae91c783e68a10013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 036/105] fix: a moved-from Metadata does not keep an invalid
 pointer

---
 src/traxpp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 9a97f28..2fff58d 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -115,6 +115,7 @@ Metadata::Metadata() {
 
 Metadata::Metadata(Metadata&& original) : Wrapper(std::move(original)) {
 	metadata = original.metadata;
+	original.metadata = NULL;
 }
 
 Metadata::Metadata(const Metadata& original) : Wrapper(original) {
@@ -183,6 +184,7 @@ std::string Metadata::tracker_family() const {
 
 void Metadata::cleanup() {
 
+	if (!metadata) return;
 	trax_metadata_release(&metadata);
 
 }
-- 
2.43.0


From bd7b011ea8b20a9a26ecbfcf374757dbed6370ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 037/105] fix: a server socket that cannot be configured is
 closed

---
 support/client/client.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 083fc91..79c6a35 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -98,6 +98,7 @@ int create_server_socket(int port) {
 		const int enable = 1;
 		if (setsockopt(sid, SOL_SOCKET, SO_REUSEADDR, (const char*) &enable, sizeof(int)) < 0) {
 			perror("setsockopt");
+			closesocket(sid);
 			return -1;
 		}
 	}
@@ -107,6 +108,7 @@ int create_server_socket(int port) {
 		const int enable = 1;
 		if (setsockopt(sid, SOL_SOCKET, SO_NOSIGPIPE, (const char*) &enable, sizeof(int)) < 0) {
 			perror("setsockopt");
+			closesocket(sid);
 			return -1;
 		}
 	}
-- 
2.43.0


From c9c321a62b33afb0e8d4910e84c030c28862fa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 038/105] fix: a process that cannot be created or connected is
 handled as an error

---
 support/client/process.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index b0265d6..a36c456 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -110,7 +110,7 @@ char** parse_command(const char* command) {
         position = __next_token(command, position, buffer, 1024);
 
         if (position < 0) {
-            for (int j = 0; j < i; j++) delete[] tokens[j];
+            for (int j = 0; j < i; j++) free(tokens[j]);
             delete [] tokens;
             delete [] buffer;
             return NULL;
@@ -148,11 +148,16 @@ Process::Process(string command, bool explicit_mode) : running(false), explicit_
     piProcInfo.hProcess = 0;
 #else
     pid = 0;
+    action_initialized = false;
 #endif
 
+    p_stdin = p_stdout = p_stderr = -1;
+    out[0] = out[1] = in[0] = in[1] = err[0] = err[1] = -1;
+    exit_status = -1;
+
     char** tokens = parse_command(command.c_str());
 
-    if (!tokens[0])
+    if (!tokens)
         throw std::runtime_error("Unable to parse command string");
 
     program = tokens[0];
@@ -322,6 +327,7 @@ bool Process::start() {
 
         if (pipe(out) == -1 || pipe(in) == -1 || pipe(err) == -1) {
             std::cerr << "Error: unable to configure process streams" << std::endl;
+            cleanup();
             return false;
         }
 
-- 
2.43.0


From d44eef34466f27de741c0850b9fe26e0622de859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 039/105] fix: a killed tracker process is reaped

---
 support/client/process.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index a36c456..fe8c911 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -449,7 +449,9 @@ bool Process::kill() {
 #else
 
             ::kill(pid, SIGKILL);
-            is_alive();
+
+            // The process is gone soon, wait for it so that it does not stay a zombie
+            for (int i = 0; i < 500 && is_alive(); i++) usleep(10000);
 
 #endif
 
@@ -589,7 +591,9 @@ bool Process::is_alive(int *status) {
         int childExitStatus;
         int result = waitpid(pid, &childExitStatus, WNOHANG);
         if (result <= 0) {
-            return result == 0;
+            // If the status is not available any more, neither is the process
+            running = result == 0;
+            return running;
         }
 
         if (WIFEXITED(childExitStatus)) {
-- 
2.43.0


From c548cde5706f8efe24ce99790f61425616cd44b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 040/105] fix: a tracker process shares its streams with nobody
 else

---
 support/client/process.cpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index fe8c911..cd45fde 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -142,6 +142,25 @@ char** parse_command(const char* command) {
 }
 
 
+#if !defined(WIN32)
+
+// Descriptors and the working directory are shared by all threads, one process is started at a time
+static Mutex start_mutex;
+
+// The end that stays in this process must not be inherited by any other process
+static bool create_pipe(int* ends, int local) {
+
+    if (pipe(ends) == -1) {
+        ends[0] = ends[1] = -1;
+        return false;
+    }
+
+    return fcntl(ends[local], F_SETFD, FD_CLOEXEC) != -1;
+
+}
+
+#endif
+
 Process::Process(string command, bool explicit_mode) : running(false), explicit_mode(explicit_mode) {
 
 #ifdef WIN32
@@ -325,7 +344,9 @@ bool Process::start() {
 
         if (pid) return false;
 
-        if (pipe(out) == -1 || pipe(in) == -1 || pipe(err) == -1) {
+        Lock start_lock(start_mutex);
+
+        if (!create_pipe(out, 1) || !create_pipe(in, 0) || !create_pipe(err, 0)) {
             std::cerr << "Error: unable to configure process streams" << std::endl;
             cleanup();
             return false;
@@ -383,6 +404,11 @@ bool Process::start() {
 
         if (directory.size() > 0) CHDIR_SOFT(cwd);
 
+        // Keep only our own ends, otherwise the end of the process goes unnoticed
+        close(out[0]); out[0] = -1;
+        close(in[1]); in[1] = -1;
+        close(err[1]); err[1] = -1;
+
         p_stdin = out[1];
         p_stdout = in[0];
         p_stderr = err[0];
-- 
2.43.0


From 607effd42ce07c9cac48d106dc8c7eca465e9308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 041/105] fix: the output of a tracker that uses a socket does
 not block it

---
 support/client/client.cpp  | 3 ++-
 support/client/process.cpp | 6 +++---
 support/client/process.h   | 3 ++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 79c6a35..7c1300a 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -309,7 +309,8 @@ public:
 		print_debug("Creating process %s", command.c_str());
 
 		process_state_mutex.acquire();
-		process = new Process(command, connection == CONNECTION_EXPLICIT);
+		// Nobody reads the standard output of a tracker that uses a socket
+		process = new Process(command, connection == CONNECTION_EXPLICIT, connection != CONNECTION_SOCKETS);
 		if (!directory.empty()) {
 			print_debug("Working directory is %s", directory.c_str());
 			process->set_directory(directory);
diff --git a/support/client/process.cpp b/support/client/process.cpp
index cd45fde..3e54138 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -161,7 +161,7 @@ static bool create_pipe(int* ends, int local) {
 
 #endif
 
-Process::Process(string command, bool explicit_mode) : running(false), explicit_mode(explicit_mode) {
+Process::Process(string command, bool explicit_mode, bool redirect_output) : running(false), explicit_mode(explicit_mode), redirect_output(redirect_output) {
 
 #ifdef WIN32
     piProcInfo.hProcess = 0;
@@ -291,7 +291,7 @@ bool Process::start() {
         siStartInfo.dwFlags |= STARTF_USESHOWWINDOW;
         if (!explicit_mode) {
             siStartInfo.hStdError = handle_ERR_Wr;
-            siStartInfo.hStdOutput = handle_OUT_Wr;
+            siStartInfo.hStdOutput = redirect_output ? handle_OUT_Wr : GetStdHandle(STD_OUTPUT_HANDLE);
             siStartInfo.hStdInput = handle_IN_Rd;
             siStartInfo.dwFlags |= STARTF_USESTDHANDLES;
         } else {
@@ -368,7 +368,7 @@ bool Process::start() {
 
         if (!explicit_mode) {
             posix_spawn_file_actions_adddup2(&action, out[0], 0);
-            posix_spawn_file_actions_adddup2(&action, in[1], 1);
+            if (redirect_output) posix_spawn_file_actions_adddup2(&action, in[1], 1);
             posix_spawn_file_actions_adddup2(&action, err[1], 2);
         } else {
             posix_spawn_file_actions_adddup2(&action, err[1], 2);
diff --git a/support/client/process.h b/support/client/process.h
index ae5974c..17d86ff 100644
--- a/support/client/process.h
+++ b/support/client/process.h
@@ -32,7 +32,7 @@ using namespace std;
 class Process : public Synchronized {
 public:
 
-    Process(string command, bool explicit_mode = false);
+    Process(string command, bool explicit_mode = false, bool redirect_output = true);
     ~Process();
 
     void set_directory(string pwd);
@@ -79,6 +79,7 @@ private:
     bool running;
 
     int explicit_mode;
+    bool redirect_output;
     int exit_status;
 
 #ifdef WIN32
-- 
2.43.0


From 5dff4da9e9097c5b71ece1f5fd320a4eb95aa116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 042/105] fix: writing to a tracker that has died does not end
 the client process

---
 support/client/client.cpp  |  7 +++++++
 support/client/process.cpp | 15 ++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 7c1300a..950bdf1 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -232,6 +232,13 @@ public:
 
 		timer_init();
 
+#ifdef SIGPIPE
+		// Writing to a tracker that has died is an error and not the end of this process
+		struct sigaction pipe_action;
+		if (sigaction(SIGPIPE, NULL, &pipe_action) == 0 && !(pipe_action.sa_flags & SA_SIGINFO) && pipe_action.sa_handler == SIG_DFL)
+			signal(SIGPIPE, SIG_IGN);
+#endif
+
 		if (log)
 			logger_stream = log;
 		else
diff --git a/support/client/process.cpp b/support/client/process.cpp
index 3e54138..1808a8b 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -394,7 +394,20 @@ bool Process::start() {
         if (directory.size() > 0)
             CHDIR_SOFT(directory);
 
-        if (posix_spawnp(&pid, program, &action, NULL, arguments, vars_c.data())) {
+        // A signal that is ignored here is not ignored by the tracker
+        posix_spawnattr_t attributes;
+        sigset_t defaults;
+        sigemptyset(&defaults);
+        sigaddset(&defaults, SIGPIPE);
+        posix_spawnattr_init(&attributes);
+        posix_spawnattr_setsigdefault(&attributes, &defaults);
+        posix_spawnattr_setflags(&attributes, POSIX_SPAWN_SETSIGDEF);
+
+        int spawn_status = posix_spawnp(&pid, program, &action, &attributes, arguments, vars_c.data());
+
+        posix_spawnattr_destroy(&attributes);
+
+        if (spawn_status) {
             running = true;
             cleanup();
             pid = 0;
-- 
2.43.0


From 823ec2ae60291f170ce1988f28777746618c8d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:28 +0000
Subject: [PATCH 043/105] fix: sessions that are created at the same time use
 different ports

---
 support/client/client.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 950bdf1..dea746d 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -224,6 +224,8 @@ int read_stream(int fd, char* buffer, int len) {
 namespace trax {
 
 int next_available_socket_port = TRAX_DEFAULT_PORT;
+static Mutex next_available_socket_port_mutex;
+
 class TrackerProcess::State : public Synchronized {
 public:
 	State(const string& command, const map<std::string, std::string> environment, ConnectionMode connection, VerbosityMode verbosity, int timeout, string directory, ostream *log):
@@ -248,17 +250,18 @@ public:
 			// Try to create a listening socket by looking for a free port number.
 			int attempts = 10;
 			while (attempts--) {
-				socket_id = create_server_socket(next_available_socket_port++);
+				next_available_socket_port_mutex.acquire();
+				socket_port = next_available_socket_port++;
 				if (next_available_socket_port > 65535)
 					next_available_socket_port = TRAX_DEFAULT_PORT;
+				next_available_socket_port_mutex.release();
 
-				if (socket_id > 0) break;
+				socket_id = create_server_socket(socket_port);
+				if (socket_id >= 0) break;
 			}
 			if (socket_id < 0)
 				throw std::runtime_error("Unable to configure TCP server socket.");
 
-			socket_port = next_available_socket_port-1;
-
 			print_debug("Socket opened successfully on port %d.", socket_port);
 
 		}
-- 
2.43.0


From ba38c1b61b8d441aa3f4917be1ad74c6696991da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:28 +0000
Subject: [PATCH 044/105] fix: a session whose threads cannot be created is not
 constructed

---
 support/client/client.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index dea746d..c042a46 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -229,7 +229,7 @@ static Mutex next_available_socket_port_mutex;
 class TrackerProcess::State : public Synchronized {
 public:
 	State(const string& command, const map<std::string, std::string> environment, ConnectionMode connection, VerbosityMode verbosity, int timeout, string directory, ostream *log):
-		client(NULL), process(NULL), command(command), environment(environment), socket_id(-1), socket_port(-1),
+		client(NULL), process(NULL), command(command), environment(environment), socket_id(-1), socket_port(-1), tracking(false),
 		connection(connection), verbosity(verbosity), timeout(timeout), directory(directory) {
 
 		timer_init();
@@ -272,8 +272,17 @@ public:
 		stop_watchdog();
 		reset_logger();
 
-		CREATE_THREAD(watchdog_thread, watchdog_loop, this);
-		CREATE_THREAD(logger_thread, logger_loop, this);
+		if (CREATE_THREAD(watchdog_thread, watchdog_loop, this) != 0) {
+			destroy_server_socket(socket_id);
+			throw std::runtime_error("Unable to create a watchdog thread");
+		}
+
+		if (CREATE_THREAD(logger_thread, logger_loop, this) != 0) {
+			watchdog_active = false;
+			RELEASE_THREAD(watchdog_thread);
+			destroy_server_socket(socket_id);
+			throw std::runtime_error("Unable to create a logger thread");
+		}
 
 	}
 
-- 
2.43.0


From f504fd65aa29c033d0fb60000297408806305380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:28 +0000
Subject: [PATCH 045/105] fix: the error output of a tracker is forwarded by
 one thread until it ends

---
 support/client/client.cpp | 129 +++++++++++++++++++++++---------------
 1 file changed, 79 insertions(+), 50 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index c042a46..870f967 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -193,6 +193,7 @@ bool line_buffer_flush(line_buffer& buffer, ostream* out) {
 }
 
 
+// Returns the number of bytes, 0 if nothing was available for a second and -1 if there will not be anything any more
 int read_stream(int fd, char* buffer, int len) {
 
 	fd_set readfds, writefds, exceptfds;
@@ -204,17 +205,28 @@ int read_stream(int fd, char* buffer, int len) {
 	if (fd < 0 || fd >= FD_SETSIZE)
 		return -1;
 
-	FD_ZERO(&readfds);
-	FD_ZERO(&writefds);
-	FD_ZERO(&exceptfds);
-	FD_SET(fd, &readfds);
-	FD_SET(fd, &exceptfds);
+	int status;
 
-	if (select(fd + 1, &readfds, &writefds, &exceptfds, &tv) < 0)
+	do {
+
+		FD_ZERO(&readfds);
+		FD_ZERO(&writefds);
+		FD_ZERO(&exceptfds);
+		FD_SET(fd, &readfds);
+		FD_SET(fd, &exceptfds);
+
+		status = select(fd + 1, &readfds, &writefds, &exceptfds, &tv);
+
+	} while (status < 0 && errno == EINTR);
+
+	if (status < 0)
 		return -1;
 
 	if (FD_ISSET(fd, &readfds)) {
-		return read(fd, buffer, len);
+		do {
+			status = read(fd, buffer, len);
+		} while (status < 0 && errno == EINTR);
+		return status > 0 ? status : -1;
 	} else if (FD_ISSET(fd, &exceptfds)) {
 		return -1;
 	} else return 0;
@@ -268,6 +280,9 @@ public:
 
 		watchdog_active = true;
 		logger_active = true;
+		logger_fd = -1;
+		logger_reading = false;
+		logger_finish = false;
 
 		stop_watchdog();
 		reset_logger();
@@ -366,6 +381,8 @@ public:
 				throw std::runtime_error("Unable to start the tracker process");
 			}
 
+			attach_logger(process->get_error());
+
 			start_watchdog();
 
 			Logging logger = trax_no_log;
@@ -506,21 +523,33 @@ flush_condition.wait(1000);
 			return;
 #endif
 
-		char buffer[LOGGER_BUFFER_SIZE];
-
-		for (int i = 0; i < 10; i++) {
-
-			int read = read_stream(process->get_error(), buffer, LOGGER_BUFFER_SIZE);
+		// Only the logger thread reads the stream, wait until it has reached the end
+		logger_state_mutex.acquire();
+		logger_finish = true;
+		for (int i = 0; i < 1000 && logger_fd != -1; i++) {
+			logger_state_mutex.release();
+			flush_condition.wait(10);
+			logger_state_mutex.acquire();
+		}
 
-			if (read <= 0) break;
+		// Give up on a stream that does not end, but not while it is being read
+		logger_fd = -1;
+		while (logger_reading) {
+			logger_state_mutex.release();
+			flush_condition.wait(10);
+			logger_state_mutex.acquire();
+		}
+		logger_state_mutex.release();
 
-			client_logger(buffer, read, this);
+	}
 
-			sleepf(0.05);
+	// The logger thread forwards the stream until it ends
+	void attach_logger(int fd) {
 
-		}
+		Lock lock(logger_state_mutex);
 
-		flush_condition.wait(1000);
+		logger_fd = fd;
+		logger_finish = false;
 
 	}
 
@@ -611,63 +640,59 @@ flush_condition.wait(1000);
 		State* state  = (State*) param;
 
 		bool run = true;
-		int err = -1;
+		char buffer[LOGGER_BUFFER_SIZE];
 
 		while (run) {
 
 			run = state->logger_active;
 
-			if (err == -1) {
-
-				if (state->process_running()) {
+			state->logger_state_mutex.acquire();
+			int err = state->logger_fd;
+			state->logger_reading = err != -1;
+			state->logger_state_mutex.release();
 
-					err = state->process->get_error();
+			if (err == -1) {
+				sleepf(0.01);
+				continue;
+			}
 
-				} else {
+			int read = read_stream(err, buffer, LOGGER_BUFFER_SIZE);
 
-					state->flush_condition.notify();
+			for (int i = 0; i < read; i++) {
 
-				}
-				if (err == -1) {
-					sleep(0);
-					continue;
-				}
+				if (line_buffer_push(state->stderr_buffer, buffer[i], state->line_truncate))
+					state->flush_error_line();
 
 			}
 
-			char chr;
-			bool flush = false;
-			int read = read_stream(err, &chr, 1);
-
-			if (read != 1) {
+			// Do not hold back the beginning of a line for too long
+			if (read <= 0)
+				state->flush_error_line();
 
-				if (state->process_running()) err =  -1;
-				flush = true;
-
-			} else {
+			state->logger_state_mutex.acquire();
+			state->logger_reading = false;
+			if (read < 0 || (read == 0 && state->logger_finish))
+				state->logger_fd = -1;
+			state->logger_state_mutex.release();
 
-				flush = line_buffer_push(state->stderr_buffer, chr, state->line_truncate);
+			if (read <= 0) state->flush_condition.notify();
 
-			}
+		}
 
-			if (flush) {
+		state->print_debug("Stopping logger thread");
 
-				MUTEX_SYNCHRONIZE(state->logger_mutex) {
+		return 0;
 
-					line_buffer_flush(state->stderr_buffer, (state->verbosity != VERBOSITY_SILENT) ? state->logger_stream : NULL);
+	}
 
-				}
+	void flush_error_line() {
 
-				if (err == -1) state->flush_condition.notify();
+		MUTEX_SYNCHRONIZE(logger_mutex) {
 
-			}
+			line_buffer_flush(stderr_buffer, (verbosity != VERBOSITY_SILENT) ? logger_stream : NULL);
 
 		}
 
-		state->print_debug("Stopping logger thread");
-
-		return 0;
-
 	}
 
 	static void client_logger(const char *string, int length, void* obj) {
@@ -729,6 +754,9 @@ flush_condition.wait(1000);
 	int watchdog_timeout;
 
 	bool logger_active;
+	int logger_fd;
+	bool logger_reading;
+	bool logger_finish;
 	line_buffer stdout_buffer;
 	line_buffer stderr_buffer;
 	int line_truncate;
@@ -736,6 +764,7 @@ flush_condition.wait(1000);
 	ostream* logger_stream;
 
 	Mutex logger_mutex;
+	Mutex logger_state_mutex;
 	Mutex watchdog_mutex;
 
 	Mutex process_state_mutex;
-- 
2.43.0


From a9ef42b1263538f442e30a23261d81e96ca3f67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:17 +0000
Subject: [PATCH 046/105] fix: the watchdog timer does not run out early and is
 not changed by two threads at once

---
 support/client/client.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 870f967..27c798b 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -486,7 +486,21 @@ public:
 
 	void reset_watchdog(int timeout) {
 
-		watchdog_timeout = timeout * 10;
+		Lock lock(watchdog_timer_mutex);
+
+		// The first step may come at once, one more makes sure that the entire time passes
+		watchdog_timeout = timeout > 0 ? timeout * 10 + 1 : 0;
+
+	}
+
+	// A step of the timer, returns true when the time is up
+	bool watchdog_expired() {
+
+		Lock lock(watchdog_timer_mutex);
+
+		if (watchdog_timeout <= 0) return false;
+
+		return --watchdog_timeout == 0;
 
 	}
 
@@ -615,16 +629,9 @@ flush_condition.wait(1000);
 				state->stop_process();
 			} else {
 
-				if (state->watchdog_timeout > 0) {
-
-					state->watchdog_timeout--;
+				if (state->watchdog_expired())
+					state->stop_process();
 
-					if (state->watchdog_timeout == 0) {
-						
-						state->stop_process();
-					}
-
-				}
 			}
 
 			state->watchdog_mutex.release();
@@ -766,6 +773,7 @@ flush_condition.wait(1000);
 	Mutex logger_mutex;
 	Mutex logger_state_mutex;
 	Mutex watchdog_mutex;
+	Mutex watchdog_timer_mutex;
 
 	Mutex process_state_mutex;
 
-- 
2.43.0


From cd5c91ec01fe5c926e149ecc9e1c5878079ad9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:17 +0000
Subject: [PATCH 047/105] fix: the watchdog does not use or release what the
 caller's thread is using

---
 support/client/client.cpp | 69 ++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 27c798b..54e75d3 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -305,14 +305,14 @@ public:
 
 		print_debug("Cleaning up.");
 
+		stop_process();
+
 		watchdog_active = false;
 		logger_active = false;
 
 		RELEASE_THREAD(watchdog_thread);
 		RELEASE_THREAD(logger_thread);
 
-		stop_process();
-
 		if (client) {
 			delete client;
 			client = NULL;
@@ -421,19 +421,38 @@ public:
 	}
 
 
-	bool stop_process() {
+	// Stops the process without using the protocol, the process state has to be locked
+	void terminate_process() {
 
-		int exit_status = -1;
+		print_debug("Trying to terminate process nicely.");
+		process->stop();
+		for (int i = 0; i < 5; i++) {
+			if (!process->is_alive()) break;
+			sleepf(0.1);
+		}
 
-		stop_watchdog();
+		if (process->is_alive()) {
+			print_debug("Escalating to brute-force termination.");
+			process->kill();
+		}
 
-		Lock lock(process_state_mutex);
+	}
+
+	bool stop_process() {
+
+		int exit_status = -1;
 
 		if (client != NULL) {
 			print_debug("Trying to stop process using protocol.");
+			// The message cannot be delivered if the tracker does not read it
+			reset_watchdog(timeout > 0 ? timeout : 10);
 			client->terminate();
 		}
 
+		stop_watchdog();
+
+		Lock lock(process_state_mutex);
+
 		if (process) {
 
 			for (int i = 0; i < 5; i++) {
@@ -442,19 +461,8 @@ public:
 			}
 
 			if (process->is_alive(&exit_status)) {
-				print_debug("Trying to terminate process nicely.");
-				process->stop();
-				for (int i = 0; i < 5; i++) {
-					if (!process->is_alive(&exit_status)) break;
-					sleepf(0.1);
-				}
-
-				if (process->is_alive(&exit_status)) {
-					print_debug("Escalating to brute-force termination.");
-					process->kill();
-					sleepf(0.1);
-					process->is_alive(&exit_status);
-				}
+				terminate_process();
+				process->is_alive(&exit_status);
 			}
 
 			flush_streams();
@@ -619,22 +627,23 @@ flush_condition.wait(1000);
 
 			run = state->watchdog_active;
 
-			bool terminate = !state->process_running();
+			vector<WatchdogCallback*> callbacks = state->callbacks;
 
-			for (vector<WatchdogCallback*>::iterator c = state->callbacks.begin(); c != state->callbacks.end(); c++) {
+			state->watchdog_mutex.release();
+
+			bool terminate = false;
+
+			for (vector<WatchdogCallback*>::iterator c = callbacks.begin(); c != callbacks.end(); c++) {
 				terminate |= (*c)();
 			}
 
-			if (terminate) {
-				state->stop_process();
-			} else {
+			// The client is being used by another thread, only the process is terminated here
+			Lock lock(state->process_state_mutex);
 
-				if (state->watchdog_expired())
-					state->stop_process();
+			if (state->watchdog_expired()) terminate = true;
 
-			}
-
-			state->watchdog_mutex.release();
+			if (terminate && state->process && state->process->is_alive())
+				state->terminate_process();
 
 		}
 
@@ -954,7 +963,7 @@ bool TrackerProcess::frame(const ImageList& image, const ObjectList& objects, co
 
 bool TrackerProcess::ready() const {
 
-	if (!state || !state->process_running() || !state->client->is_alive()) return false;
+	if (!state || !state->process_running() || !state->client || !state->client->is_alive()) return false;
 
 	return true;
 
-- 
2.43.0


From 6cdbd4ee060a076a4f64eef2d9f4c776d6692253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:17 +0000
Subject: [PATCH 048/105] fix: a tracker process that could not be used is
 stopped and released

---
 support/client/client.cpp | 77 ++++++++++++++++++++++++++-------------
 1 file changed, 51 insertions(+), 26 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 54e75d3..386fb41 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -334,6 +334,9 @@ public:
 
 		if (process_running()) return false;
 
+		// Release what is left of a process that has ended by itself
+		stop_process();
+
 		if (client) {
 			delete client;
 			client = NULL;
@@ -342,38 +345,51 @@ public:
 
 		print_debug("Creating process %s", command.c_str());
 
-		process_state_mutex.acquire();
 		// Nobody reads the standard output of a tracker that uses a socket
-		process = new Process(command, connection == CONNECTION_EXPLICIT, connection != CONNECTION_SOCKETS);
-		if (!directory.empty()) {
-			print_debug("Working directory is %s", directory.c_str());
-			process->set_directory(directory);
-		}
-		process_state_mutex.release();
+		Process* created = new Process(command, connection == CONNECTION_EXPLICIT, connection != CONNECTION_SOCKETS);
 
-		process->copy_environment();
+		try {
 
-		std::map<std::string, std::string>::const_iterator iter;
-		for (iter = environment.begin(); iter != environment.end(); ++iter) {
-			process->set_environment(iter->first, iter->second);
-		}
+			if (!directory.empty()) {
+				print_debug("Working directory is %s", directory.c_str());
+				created->set_directory(directory);
+			}
 
-		if (connection == CONNECTION_SOCKETS) {
-			char port_buffer[24];
-			sprintf(port_buffer, "%d", socket_port);
-			process->set_environment("TRAX_SOCKET", port_buffer);
+			created->copy_environment();
+
+			std::map<std::string, std::string>::const_iterator iter;
+			for (iter = environment.begin(); iter != environment.end(); ++iter) {
+				created->set_environment(iter->first, iter->second);
+			}
+
+			if (connection == CONNECTION_SOCKETS) {
+				char port_buffer[24];
+				sprintf(port_buffer, "%d", socket_port);
+				created->set_environment("TRAX_SOCKET", port_buffer);
+			}
+
+			reset_logger();
+
+			print_debug("Starting process");
+
+			if (!created->start()) {
+				print_debug("Unable to start process");
+				throw std::runtime_error("Unable to start the tracker process");
+			}
+
+		} catch (...) {
+			delete created;
+			throw;
 		}
 
-		reset_logger();
+		// The other threads see the process from here on
+		process_state_mutex.acquire();
+		process = created;
+		process_state_mutex.release();
 
-		bool started = false;
-		print_debug("Starting process");
-		started = process->start();
+		attach_logger(process->get_error());
 
-		if (!started) {
-			print_debug("Unable to start process");
-			throw std::runtime_error("Unable to start the tracker process");
-		} else {
+		try {
 
 			sleepf(0.1);
 			if (!process->is_alive()) {
@@ -381,8 +397,6 @@ public:
 				throw std::runtime_error("Unable to start the tracker process");
 			}
 
-			attach_logger(process->get_error());
-
 			start_watchdog();
 
 			Logging logger = trax_no_log;
@@ -416,6 +430,17 @@ public:
 
 			return true;
 
+		} catch (...) {
+
+			stop_process();
+
+			if (client) {
+				delete client;
+				client = NULL;
+			}
+
+			throw;
+
 		}
 
 	}
-- 
2.43.0


From a90f0d690e059908fdd2810caf37a867d5f5444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:17 +0000
Subject: [PATCH 049/105] fix: a tracker that does not connect is noticed, and
 is not mixed up with an earlier one

---
 support/client/client.cpp | 43 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 386fb41..781642f 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -330,6 +330,43 @@ public:
 		return process && process->is_alive();
 	}
 
+	bool connection_waiting(float seconds) {
+
+		fd_set readfds;
+		struct timeval tv;
+
+		tv.tv_sec = 0;
+		tv.tv_usec = (long) (seconds * 1000000.0);
+
+		FD_ZERO(&readfds);
+		FD_SET(socket_id, &readfds);
+
+		return select(socket_id + 1, &readfds, NULL, NULL, &tv) > 0;
+
+	}
+
+	// Wait for the tracker to connect, but only as long as it is running, the time is limited by the watchdog
+	bool wait_connection() {
+
+		while (!connection_waiting(0.1)) {
+			if (!process_running()) return false;
+		}
+
+		return true;
+
+	}
+
+	// Connections that were not accepted belong to a process that has already ended
+	void drop_connections() {
+
+		while (connection == CONNECTION_SOCKETS && connection_waiting(0)) {
+			int stale = (int) accept(socket_id, NULL, NULL);
+			if (stale < 0) break;
+			closesocket(stale);
+		}
+
+	}
+
 	bool start_process() {
 
 		if (process_running()) return false;
@@ -370,6 +407,8 @@ public:
 
 			reset_logger();
 
+			drop_connections();
+
 			print_debug("Starting process");
 
 			if (!created->start()) {
@@ -406,6 +445,10 @@ public:
 
 			if (connection == CONNECTION_SOCKETS) {
 				print_debug("Setting up TraX with TCP socket connection");
+				if (!wait_connection()) {
+					print_debug("Unable to establish connection.");
+					throw std::runtime_error("Unable to establish connection.");
+				}
 				client = new Client(socket_id, logger, timeout);
 			} else {
 				print_debug("Setting up TraX with %s streams connection", (connection == CONNECTION_EXPLICIT) ? "dedicated" : "standard");
-- 
2.43.0


From fb1ce4c383d9fdaea8eb9cfb0ff401ee55b3b7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:24 +0000
Subject: [PATCH 050/105] fix: the sockets of a session are not inherited by
 tracker processes

---
 src/message.c             | 4 ++++
 support/client/client.cpp | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/message.c b/src/message.c
index cb1d952..7625db1 100644
--- a/src/message.c
+++ b/src/message.c
@@ -53,6 +53,7 @@ static void initialize_sockets(void) {
 #include <sys/socket.h>
 #include <unistd.h>
 #include <sys/select.h>
+#include <fcntl.h>
 #include <arpa/inet.h>
 #include <netinet/tcp.h>
 #define closesocket close
@@ -237,6 +238,9 @@ message_stream* create_message_stream_socket_accept(int server, int timeout) {
             perror("accept");
             return NULL;
         }
+#ifdef FD_CLOEXEC
+        fcntl(asock, F_SETFD, FD_CLOEXEC);
+#endif
         break;
 	} else {
         return NULL;
diff --git a/support/client/client.cpp b/support/client/client.cpp
index 781642f..ff85bbc 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -58,6 +58,7 @@ __inline void sleep(long time) {
 #include <sys/socket.h>
 #include <unistd.h>
 #include <sys/select.h>
+#include <fcntl.h>
 #include <arpa/inet.h>
 #include <netinet/tcp.h>
 #define closesocket close
@@ -94,6 +95,10 @@ int create_server_socket(int port) {
 		return -1;
 	}
 
+#ifdef FD_CLOEXEC
+	fcntl(sid, F_SETFD, FD_CLOEXEC);
+#endif
+
 	{
 		const int enable = 1;
 		if (setsockopt(sid, SOL_SOCKET, SO_REUSEADDR, (const char*) &enable, sizeof(int)) < 0) {
-- 
2.43.0


From c6cbbcecb899dcae362f6956088dc1bdb9c8ea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:12 +0000
Subject: [PATCH 051/105] fix: signals do not shorten the time limit of a
 tracker process

---
 support/client/client.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index ff85bbc..5ff3c30 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -57,6 +57,7 @@ __inline void sleep(long time) {
 //#else
 #include <sys/socket.h>
 #include <unistd.h>
+#include <time.h>
 #include <sys/select.h>
 #include <fcntl.h>
 #include <arpa/inet.h>
@@ -65,7 +66,12 @@ __inline void sleep(long time) {
 //#endif
 
 void sleepf(float seconds) {
-	usleep((long) (seconds * 1000000.0));
+	struct timespec remaining;
+	remaining.tv_sec = (time_t) seconds;
+	remaining.tv_nsec = (long) ((seconds - remaining.tv_sec) * 1000000000.0);
+
+	// A signal must not make the time pass faster
+	while (nanosleep(&remaining, &remaining) == -1 && errno == EINTR);
 }
 
 #include <signal.h>
-- 
2.43.0


From 1ca3e120aa011adb5bd337f6d258d9a363416c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 052/105] fix: frames that an initialization file does not list
 have no initialization data

A file with fewer lines than the sequence has frames was read beyond its end.
---
 support/client/cli.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index cc9afe4..14b78de 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -608,6 +608,8 @@ int main( int argc, char** argv) {
             if (!initialization_file.empty()) {
                 load_trajectory(initialization_file, initialization);
                 print_debug("Initialization loaded from file %s.\n", initialization_file.c_str());
+                // Frames that are not listed have no initialization data.
+                initialization.resize(images.size());
             } else {
                 initialization = vector<Region>(groundtruth.begin(), groundtruth.end());
             }
-- 
2.43.0


From f7e6289f0183328afc3c58c7f8ee40067b27494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 053/105] fix: the last line of an image list does not need a
 line ending

The last frame of the sequence was ignored without it.
---
 support/client/cli.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 14b78de..dba9163 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -311,8 +311,8 @@ void read_images(const string& file, vector<vector<string> >& list) {
     while (true) {
         string line;
         vector<string> images;
-        getline(input, line);
-        if (!input.good()) break;
+        // The last line does not have to have a line ending
+        if (!getline(input, line)) break;
 
         size_t pos = 0;
         std::string token;
-- 
2.43.0


From 26e302068e99cd7b8795e237b067b3cf60608d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 054/105] fix: frames without initialization data have an entry
 in the timing file

The entries of all later frames were out of line with the frames.
---
 support/client/cli.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index dba9163..dd39c29 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -629,6 +629,7 @@ int main( int argc, char** argv) {
                     if (!initialization[frame].empty()) break;
                     print_debug("Skipping frame %d, no initialization data. \n", (int) frame);
                     output.push_back(Region::create_special(0));
+                    timings.push_back(0);
                 }
 
                 if (frame == images.size()) break;
-- 
2.43.0


From f42b832401fff400160b07ddbbf8b8f133853dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 055/105] fix: an image file that cannot be read ends the
 client with an error message

Its size was used without a check, which ended the program by an exception
that nothing handles.
---
 support/client/cli.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index dd39c29..4a912a2 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -376,6 +376,8 @@ Image load_image(string& path, int formats) {
     case TRAX_IMAGE_BUFFER: {
         // Read the file to memory
         std::ifstream t(path.c_str());
+        if (!t.is_open())
+            throw std::runtime_error("Unable to read image file " + path);
         t.seekg(0, std::ios::end);
         size_t size = t.tellg();
         std::string buffer(size, ' ');
-- 
2.43.0


From cc7c1ea9051168cc0a9f137d312e02e1bb5a0941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 056/105] fix: the overlap with a special region within given
 bounds is zero

The code of the special region was used as a polygon, so that a tracker
which answers with a special region crashed a client that uses the bounded
overlap.
---
 src/region.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/region.c b/src/region.c
index 7439dd5..209314f 100644
--- a/src/region.c
+++ b/src/region.c
@@ -1121,6 +1121,9 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 	overlap.only1 = 0;
 	overlap.only2 = 0;
 
+	// Regions without a geometric form do not overlap with anything.
+	if (ra->type == SPECIAL || rb->type == SPECIAL)
+		return overlap;
 
 	if (__flags & REGION_LEGACY_RASTERIZATION) {
 		b1 = bounds_intersection(region_compute_bounds(ra), bounds);
-- 
2.43.0


From 71792ce24c4045ea3d9afc0aacb4d010f8b30272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 057/105] fix: traxtest reads the argument of -I

---
 support/client/tester.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/client/tester.cpp b/support/client/tester.cpp
index f44f20c..0f79d6c 100644
--- a/support/client/tester.cpp
+++ b/support/client/tester.cpp
@@ -168,7 +168,7 @@ void print_debug(const char *format, ...) {
 }
 
 
-#define CMD_OPTIONS "hdt:p:e:xXI"
+#define CMD_OPTIONS "hdt:p:e:xXI:"
 
 int main(int argc, char** argv) {
 
-- 
2.43.0


From 2fee163612561bca4bc7674ccfe3e9cbc7af3794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 058/105] fix: traxtest fills the whole in-memory picture

---
 support/client/tester.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/client/tester.cpp b/support/client/tester.cpp
index 0f79d6c..5935bba 100644
--- a/support/client/tester.cpp
+++ b/support/client/tester.cpp
@@ -263,7 +263,7 @@ int main(int argc, char** argv) {
             tester_copy_resource("static.bin", &buffer, &length);
             Image tmp = Image::create_memory(320, 240, TRAX_IMAGE_MEMORY_RGB);
             char* dst = tmp.write_memory_row(0);
-            memcpy(dst, buffer, 320 * 240);
+            memcpy(dst, buffer, 320 * 240 * 3);
             free(buffer);
             image.set(tmp, TRAX_CHANNEL_COLOR);
         } else if TRAX_SUPPORTS(image_formats, TRAX_IMAGE_PATH) {
-- 
2.43.0


From 4877a1ffcb4862d53109670fed8ffda6212185b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 059/105] fix: traxtest reports that it cannot write the test
 picture

---
 support/client/tester.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/support/client/tester.cpp b/support/client/tester.cpp
index 5935bba..b0b80f7 100644
--- a/support/client/tester.cpp
+++ b/support/client/tester.cpp
@@ -273,6 +273,11 @@ int main(int argc, char** argv) {
             string temp_path = get_temp_name("trax_testing.jpg");
             std::ofstream output(temp_path.c_str(), std::ios::out | std::ios::binary );
             output.write(buffer, length);
+            output.close();
+            if (!output.good()) {
+                free(buffer);
+                throw std::runtime_error("Unable to write the testing image");
+            }
             image.set(Image::create_path(temp_path), TRAX_CHANNEL_COLOR);
             free(buffer);
         }
-- 
2.43.0


From b0e04bebb2f8bd77b70acb3fc0ce0c8a0ae3113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 060/105] fix: traxtest waits for the answer to the last frame

---
 support/client/tester.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/support/client/tester.cpp b/support/client/tester.cpp
index b0b80f7..324be8d 100644
--- a/support/client/tester.cpp
+++ b/support/client/tester.cpp
@@ -316,7 +316,7 @@ int main(int argc, char** argv) {
 
             frame = 0;
 
-            while (frame < 20) {
+            while (true) {
                 // Repeat while tracking the target.
                 bool result = false;
                 Properties additional;
@@ -344,6 +344,9 @@ int main(int argc, char** argv) {
                     }
                 }
 
+                // The last frame is also complete only when it was answered.
+                if (frame == 20) break;
+
                 Properties no_properties;
 
                 if (multiobject && frame % 5 == 3) {
-- 
2.43.0


From 100b2e68246b03055af396f38349eeadf3091879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 061/105] fix: image sizes that do not fit an integer are not
 decoded

---
 src/trax.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index c73bed8..d5d7069 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -315,7 +315,8 @@ trax_image* image_decode(char* buffer) {
     if (strcmp(buffer, "file") == 0) {
         result = trax_image_create_path(buffer + (compare_prefix(resource, "//") ? 7 : 5));
     } else if (strcmp(buffer, "image") == 0) {
-        int outlen, width, height, depth, format, channels, allocated, verify;
+        int outlen, depth, format, channels, allocated, verify;
+        long width, height;
         char* token;
 
         width = strtol(resource, &resource, 10);
-- 
2.43.0


From eab59aabeebde850c48f60aaea631ea5aeb7199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:27 +0000
Subject: [PATCH 062/105] fix: Python loggers take the text that they are given

The logger callback gets an address and a length. The text is not terminated,
so it must not be read as a C string, and it may be a part of a multi-byte
character.
---
 support/python/trax/__init__.py | 12 ++++++++----
 support/python/trax/_ctypes.py  |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index 20beec5..ea0e375 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -6,10 +6,11 @@ __all__ = \
     'MemoryImage', 'BufferImage', 'Region', 'Image', 'Polygon',
     'Rectangle', 'Special', 'Mask', 'TraxStatus', 'Properties']
 
+import codecs
 import os
 import traceback
 import weakref
-from ctypes import py_object, c_void_p, cast, byref, POINTER
+from ctypes import py_object, c_void_p, cast, byref, string_at, POINTER
 
 from ._ctypes import \
     trax_properties_create, \
@@ -70,12 +71,14 @@ class Logger(object):
     def __init__(self):
         """ Initialize logger"""
         self._interrupted = False
+        # The text may arrive in pieces that split a multi-byte character
+        self._decoder = codecs.getincrementaldecoder("utf-8")("replace")
 
     def __call__(self, buffer, length, _):
         """ Call logger with buffer and length, this method is called from C code, handles buffer decoding and calls handle() method. It also handles KeyboardInterrupt exception.
         
         Args:
-            buffer (bytes): buffer to decode
+            buffer (int): address of the buffer to decode, not terminated
             length (int): length of the buffer
             _ (ctypes.c_void_p): unused
             
@@ -83,8 +86,9 @@ class Logger(object):
         try:
             if not buffer:
                 return
-            message = buffer[:length].decode("utf-8")
-            self.handle(message)
+            message = self._decoder.decode(string_at(buffer, length))
+            if message:
+                self.handle(message)
         except KeyboardInterrupt:
             self._interrupted = True
 
diff --git a/support/python/trax/_ctypes.py b/support/python/trax/_ctypes.py
index a4e12e0..6b1bf1d 100644
--- a/support/python/trax/_ctypes.py
+++ b/support/python/trax/_ctypes.py
@@ -600,7 +600,7 @@ struct_trax_bounds._fields_ = [
 
 trax_bounds = struct_trax_bounds# /home/lukacu/Checkouts/vot/trax/include/trax.h: 168
 
-trax_logger = ctypes.CFUNCTYPE(None, ctypes.c_char_p, ctypes.c_int32, ctypes.c_void_p)
+trax_logger = ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_int32, ctypes.c_void_p)
 trax_enumerator = ctypes.CFUNCTYPE(None, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_void_p)
 
 # /home/lukacu/Checkouts/vot/trax/include/trax.h: 181
-- 
2.43.0


From 711d562ea6621c473b0d81f16573006dd47412cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:27 +0000
Subject: [PATCH 063/105] fix: Python client without a log can be created

---
 support/python/trax/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index 6251107..16731ed 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -45,7 +45,7 @@ class Client(object):
         else:
             self._logger = None
 
-        self._clogger = trax_logger(self._logger) if not self._logger is None else None
+        self._clogger = trax_logger(self._logger) if not self._logger is None else trax_logger()
 
         logger = trax_logger_setup(self._clogger, 0, 0)
 
-- 
2.43.0


From c2595b778eddc3c5f4f29c9c9c07c0865344e563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:27 +0000
Subject: [PATCH 064/105] fix: Python properties are read by name without a
 leak

The item operator passed a str to the C library and the values copied by
trax_properties_get were never released.
---
 support/python/trax/__init__.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index ea0e375..ae78cb6 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -14,7 +14,7 @@ from ctypes import py_object, c_void_p, cast, byref, string_at, POINTER
 
 from ._ctypes import \
     trax_properties_create, \
-    trax_properties_get, trax_properties_set, trax_object_list, \
+    trax_properties_set, trax_object_list, \
     trax_image_release, trax_region_release, trax_object_list_release, \
     trax_cleanup, trax_properties_release, trax_image_list_release, \
     struct_trax_handle, struct_trax_image, struct_trax_image_list, \
@@ -427,7 +427,7 @@ class Properties(object):
         Args:
             key (str): property key
         """
-        return trax_properties_get(self._ref.reference, key)
+        return self.get(key)
 
     def __setitem__(self, key: str, value: str):
         """ Set a property value.
@@ -448,10 +448,8 @@ class Properties(object):
         Returns:
             str: property value
         """
-        value = trax_properties_get(self._ref.reference, key.encode('utf8'))
-        if value == None:
-            return default
-        return value.decode('utf8') if not value is None else None
+        # A copy returned by trax_properties_get could not be released from here
+        return self.dict().get(key, default)
 
     def set(self, key: str, value: str):
         """ Set a property value.
-- 
2.43.0


From 6333d347995bf777daa079589c2f5736473eefff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:27 +0000
Subject: [PATCH 065/105] fix: Python calls accept Properties objects as
 properties

---
 support/python/trax/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index ae78cb6..db8941c 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -391,7 +391,7 @@ class Properties(object):
         """ Create a new properties structure.
         
         Args:
-            data (dict): dictionary of properties or a properties C structure reference to wrap
+            data (dict): dictionary of properties, another Properties object to copy, or a properties C structure reference to wrap
             owner (bool): if True, the structure will be released when the wrapper is destroyed    
         """
         if not data:
@@ -402,6 +402,11 @@ class Properties(object):
             self._ref = PropertiesWrapper(trax_properties_create())
             for key, value in data.items():
                 trax_properties_set(self._ref.reference, key.encode('utf8'), str(value).encode('utf8'))
+        elif isinstance(data, Properties):
+            self._ref = PropertiesWrapper(trax_properties_create())
+            self.copy(data)
+        else:
+            raise TraxException("Unable to use {} as properties".format(type(data)))
 
     def copy(self, source: "Properties"):
         """ Copy properties from another properties structure.
-- 
2.43.0


From b22bdb1cedaeafb6be9f12fa2edeac71aa51e4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:27 +0000
Subject: [PATCH 066/105] fix: Python client sends frames without new objects
 by default

---
 support/python/trax/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index 16731ed..84be59e 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -233,7 +233,7 @@ class Client(object):
         """
 
         timage = wrap_images(images)
-        tobjects = wrap_objects(objects)
+        tobjects = wrap_objects(objects if not objects is None else [])
         tproperties = Properties(properties)
 
         status = TraxStatus.decode(trax_client_frame(self._handle.reference, timage.reference, tobjects.reference, tproperties.reference))
-- 
2.43.0


From fd5ae4d03bb0caa84893d38e495483f7926f5884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 067/105] fix: Python handles are released after a failed setup
 and before their logger

The message of a failed setup was looked up on a raw pointer, which has no
reference attribute, and the handle was never released. The handle finalizer
may still log, so the callback has to live as long as the handle.
---
 support/python/trax/__init__.py | 9 +++++++--
 support/python/trax/client.py   | 7 ++++---
 support/python/trax/server.py   | 6 +++---
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index db8941c..9d6b63a 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -300,14 +300,19 @@ class PropertiesWrapper(Wrapper):
 class HandleWrapper(Wrapper):
     """ Wrapper for trax_handle_t structure."""
 
-    def __init__(self, reference, owner=True):
+    def __init__(self, reference, owner=True, logger=None):
         """ Initialize wrapper with reference to trax_handle_t structure.
         
         Args:
             reference (c_void_p): reference to trax_handle_t structure
             owner (bool): whether to take ownership of the structure
+            logger (trax_logger): logger callback of the handle, has to exist as long as the handle does
         """
-        super().__init__(POINTER(struct_trax_handle), reference, lambda x: trax_cleanup(byref(x)) if owner else None)
+        def cleanup(handle, logger=logger):
+            if owner:
+                trax_cleanup(byref(handle))
+
+        super().__init__(POINTER(struct_trax_handle), reference, cleanup)
 
 def wrap_image_list(list):
     """ Wrap image list internal C structure into a dictionary of images.
diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index 84be59e..08fc941 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -68,6 +68,9 @@ class Client(object):
         else:
             raise TraxException("Invalid parameters")
 
+        if handle:
+            self._handle = HandleWrapper(handle, logger=self._clogger)
+
         if self._logger and self._logger.interrupted:
             raise KeyboardInterrupt("Interrupted by user in log callback")
 
@@ -75,12 +78,10 @@ class Client(object):
             raise TraxException("Unable to connect to tracker")
 
         if trax_is_alive(handle) == 0:
-            message = trax_get_error(handle.reference)
+            message = trax_get_error(handle)
             message = message.decode('utf-8') if not message is None else "Unknown"
             raise TraxException("Exception when connecting to tracker: {}".format(message))
 
-        self._handle = HandleWrapper(handle)
-
         metadata = self._handle.reference.contents.metadata
 
         self._format_region = Region.decode_list(metadata.contents.format_region)
diff --git a/support/python/trax/server.py b/support/python/trax/server.py
index b969e5d..b696826 100644
--- a/support/python/trax/server.py
+++ b/support/python/trax/server.py
@@ -78,13 +78,13 @@ class Server(object):
         if not handle:
             raise TraxException("Exception when setting up.")
 
+        self._handle = HandleWrapper(handle, logger=self._logger)
+
         if trax_is_alive(handle) == 0:
-            message = trax_get_error(handle.reference)
+            message = trax_get_error(handle)
             message = message.decode('utf-8') if not message is None else "Unknown"
             raise TraxException("Exception when setting up: {}".format(message))
 
-        self._handle = HandleWrapper(handle)
-
     def wait(self):
         """ Wait for client message request. Recognize it and parse them when received .
 
-- 
2.43.0


From 55df23c4f63eed9f77edb1306eeda1d40e833ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 068/105] fix: Python server can be used in a context after it
 has quit

Leaving the context terminates the session again, which failed with an
attribute error when quit was called before.
---
 support/python/trax/server.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/support/python/trax/server.py b/support/python/trax/server.py
index b696826..ca6b007 100644
--- a/support/python/trax/server.py
+++ b/support/python/trax/server.py
@@ -8,7 +8,7 @@ import collections
 from ctypes import byref, cast, py_object
 
 __all__ = \
-    ['Server', 'Rquest']
+    ['Server', 'Request']
 
 from .image import ImageChannel, Image
 from .region import Region
@@ -93,6 +93,9 @@ class Server(object):
         """
         from . import TraxException, Properties, TraxStatus, wrap_image_list, wrap_object_list, trax_image_list_p, trax_object_list_p
 
+        if self._handle is None:
+            raise TraxException("Exception when waiting for command: Session has been terminated")
+
         timage = trax_image_list_p()
         tobjects = trax_object_list_p()
         properties = Properties()
@@ -134,6 +137,10 @@ class Server(object):
         from . import TraxException, TraxStatus, Properties, wrap_objects
 
         assert(isinstance(objects, list))
+
+        if self._handle is None:
+            raise TraxException("Exception when sending status: Session has been terminated")
+
         tproperties = Properties(properties)
         tobjects = wrap_objects(objects)
         status = TraxStatus.decode(trax_server_reply(self._handle.reference, tobjects.reference, tproperties.reference))
@@ -161,6 +168,9 @@ class Server(object):
         """ Sends quit message and end terminates communication. """
         from . import TraxException, TraxStatus
 
+        if self._handle is None:
+            return
+
         if not reason is None:
             status = TraxStatus.decode(trax_terminate(self._handle.reference, reason.encode('utf-8')))
         else:
-- 
2.43.0


From 43a19ae927e7578a50baef6aa7ebfe55f8acbeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 069/105] fix: Python server sends the properties of a status

---
 support/python/trax/server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/support/python/trax/server.py b/support/python/trax/server.py
index ca6b007..af31087 100644
--- a/support/python/trax/server.py
+++ b/support/python/trax/server.py
@@ -20,7 +20,8 @@ from ._ctypes import \
         trax_server_wait, trax_server_reply, \
         trax_image_list_release,  \
         trax_logger, trax_terminate, \
-        trax_is_alive, trax_get_error, trax_object_list_release
+        trax_is_alive, trax_get_error, trax_object_list_release, \
+        trax_object_list_properties, trax_properties_append
 
 
 class Request(collections.namedtuple('Request', ['type', 'image', 'objects', 'properties'])):
@@ -141,8 +142,11 @@ class Server(object):
         if self._handle is None:
             raise TraxException("Exception when sending status: Session has been terminated")
 
+        # Replies have no properties of their own, they are sent with the first object
         tproperties = Properties(properties)
         tobjects = wrap_objects(objects)
+        if len(objects) > 0:
+            trax_properties_append(tproperties.reference, trax_object_list_properties(tobjects.reference, 0), 0)
         status = TraxStatus.decode(trax_server_reply(self._handle.reference, tobjects.reference, tproperties.reference))
 
         if status == TraxStatus.ERROR:
-- 
2.43.0


From 5346dab4a232e3841a813eae2548a8626a32a8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 070/105] fix: Python client says why initialization failed

---
 support/python/trax/client.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index 08fc941..78b6e5e 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -203,8 +203,6 @@ class Client(object):
         if self._logger and self._logger.interrupted:
             raise KeyboardInterrupt("Interrupted by user in log callback")
 
-        if status == TraxStatus.ERROR:
-            raise TraxException("Exception when waiting for response")
         if status == TraxStatus.QUIT:
             reason = properties.get("trax.reason", None)
             if reason is None:
-- 
2.43.0


From d85a197e44f56c02de43c4bbf615c9bf18be18f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 071/105] fix: Python file logger writes plain file names and
 all text

---
 support/python/trax/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index 9d6b63a..6eb6a1c 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -126,8 +126,8 @@ class FileLogger(Logger):
             filename (str): name of the file to write messages to
         """
         super().__init__()
-        os.makedirs(os.path.dirname(filename), exist_ok=True)
-        self._fp = open(filename, "w")
+        os.makedirs(os.path.dirname(os.path.abspath(filename)), exist_ok=True)
+        self._fp = open(filename, "w", encoding="utf-8")
 
     def handle(self, message: str):
         """ Handle message by writing it to a file.
-- 
2.43.0


From aebddba49577c19a5a06f9613b92d8d3bf56e3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 072/105] fix: Python masks are created from any array, not
 only contiguous ones

---
 support/python/trax/region.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/python/trax/region.py b/support/python/trax/region.py
index 230dc2a..ae77783 100644
--- a/support/python/trax/region.py
+++ b/support/python/trax/region.py
@@ -344,6 +344,8 @@ class Mask(Region):
         """
         assert(len(source.shape) == 2 and source.dtype == np.uint8)
 
+        source = np.ascontiguousarray(source)
+
         mask = cast(trax_region_create_mask(x, y, source.shape[1], source.shape[0]), c_void_p)
 
         data = trax_region_write_mask_row(mask, 0)
-- 
2.43.0


From f9c1d64d3af6f25f9009e1ada774fc99c74a185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 073/105] fix: Python masks with a negative offset can be
 normalized

---
 support/python/trax/region.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/support/python/trax/region.py b/support/python/trax/region.py
index ae77783..d4317c3 100644
--- a/support/python/trax/region.py
+++ b/support/python/trax/region.py
@@ -431,4 +431,6 @@ class Mask(Region):
         if not normalize:
             return mat
 
-        return np.pad(mat, pad_width=[(y.value, 0), (x.value, 0)], mode='constant')
+        mat = mat[max(-y.value, 0):, max(-x.value, 0):]
+
+        return np.pad(mat, pad_width=[(max(y.value, 0), 0), (max(x.value, 0), 0)], mode='constant')
-- 
2.43.0


From 73fa800b0101d4c8e55b1527a8c3e83ec052c39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:46 +0000
Subject: [PATCH 074/105] fix: long debug messages of the client are formatted
 correctly

---
 support/client/client.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 5ff3c30..ea5ce3c 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -678,6 +678,9 @@ flush_condition.wait(1000);
 		if (required >= size) {
 			size = required;
 			buffer = (char*) realloc(buffer, sizeof(char) * size);
+			// The list of arguments can only be read once
+			va_end(args);
+			va_start(args, format);
 			required = vsnprintf(buffer, size, format, args);
 		}
 #endif
-- 
2.43.0


From 5579b69ec52b8889b9947b637759db21ed11a473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 075/105] fix: tracker commands with long arguments or trailing
 blanks can be started

---
 support/client/process.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index 1808a8b..ee37b26 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -100,6 +100,7 @@ int __next_token(const char* str, int start, char* buffer, int len)
 char** parse_command(const char* command) {
 
     int length = (int)strlen(command);
+    while (length > 0 && command[length-1] == ' ') length--;
     char* buffer = new char[length+1];
     char** tokens = new char*[length];
     int position = 0;
@@ -107,7 +108,7 @@ char** parse_command(const char* command) {
 
     while (1) {
 
-        position = __next_token(command, position, buffer, 1024);
+        position = __next_token(command, position, buffer, length+1);
 
         if (position < 0) {
             for (int j = 0; j < i; j++) free(tokens[j]);
-- 
2.43.0


From 7b282b24b2ccb941232eed0b91149b878ff367fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:01 +0000
Subject: [PATCH 076/105] fix: Octave functions accept empty strings and refuse
 values that are no strings

---
 support/matlab/helpers.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 37e4803..47d1a02 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -16,11 +16,14 @@ bool is_property_name(const std::string &str) {
 
 string get_string(const mxArray *arg) {
 
-    if (mxGetM(arg) != 1) {
+    if (!mxIsChar(arg) || (mxGetM(arg) != 1 && !mxIsEmpty(arg))) {
         MEX_ERROR("Must be a string");
         return string();
     }
 
+    if (mxIsEmpty(arg))
+        return string();
+
     int l = (int) mxGetN(arg);
 
     char* cstr = (char *) malloc(sizeof(char) * (l + 1));
-- 
2.43.0


From 9e6767447b7d5aeb124eb5e81bed240252a53553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:01 +0000
Subject: [PATCH 077/105] fix: Octave properties can have more than one row and
 are checked

---
 support/matlab/helpers.cpp | 42 ++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 47d1a02..7c60362 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -43,9 +43,21 @@ mxArray* set_string(const char* str) {
 
 }
 
+static void set_parameter(Properties& prop, const string& name, const mxArray * value) {
+
+    if (value && mxIsChar(value)) {
+        prop.set(name, get_string(value));
+    } else if (value && !mxIsEmpty(value) && (mxIsNumeric(value) || mxIsLogical(value))) {
+        prop.set(name, (float) mxGetScalar(value));
+    } else {
+        MEX_ERROR("Parameter value must be a string or a number");
+    }
+
+}
+
 Properties struct_to_parameters(const mxArray * input) {
 
-    if (!mxIsStruct(input)) {
+    if (!mxIsStruct(input) || mxGetNumberOfElements(input) != 1) {
         MEX_ERROR("Parameter has to be a structure.");
         return Properties();
     }
@@ -58,12 +70,7 @@ Properties struct_to_parameters(const mxArray * input) {
 
         mxArray * value = mxGetFieldByNumber(input, 0, i);
 
-        if (mxIsChar(value)) {
-            string s = get_string(value);
-            prop.set(name, s.c_str());
-        } else {
-            prop.set(name, (float) mxGetScalar(value));
-        }
+        set_parameter(prop, name, value);
     }
 
     return prop;
@@ -76,15 +83,16 @@ Properties cell_to_parameters(const mxArray * input) {
         return Properties();
     }
 
-    int length = mxGetM(input);
-    int n = mxGetN(input);
+    Properties prop;
 
-    if ( min(mxGetM(input), mxGetN(input)) != 1 ) {
-        MEX_ERROR("Array must be a vector");
-    }
+    if (mxIsEmpty(input))
+        return prop;
 
+    int length = mxGetM(input);
 
-    Properties prop;
+    if (mxGetNumberOfDimensions(input) != 2 || mxGetN(input) != 2) {
+        MEX_ERROR("Cell array must have two columns");
+    }
 
     for (int i = 0; i < length; i++) {
         mxArray* key = mxGetCell(input, i);
@@ -92,13 +100,7 @@ Properties cell_to_parameters(const mxArray * input) {
 
         string skey = get_string(key);
 
-        if (mxIsChar(value)) {
-            string s = get_string(value);
-            prop.set(skey.c_str(), s.c_str());
-        } else {
-            prop.set(skey.c_str(), (float) mxGetScalar(value));
-        }
-
+        set_parameter(prop, skey, value);
     }
 
     return prop;
-- 
2.43.0


From b798eb0df6b79b217eaf3543c97f1ff62f598bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:01 +0000
Subject: [PATCH 078/105] fix: Octave values of the wrong size are not taken
 for regions

---
 support/matlab/helpers.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 7c60362..ec6911c 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -218,9 +218,12 @@ Region array_to_region(const mxArray* input) {
     Region p;
     int l = mxGetN(input);
 
+    if (mxGetNumberOfDimensions(input) != 2 || mxIsEmpty(input)) {
+        MEX_ERROR("Illegal region format.");
+    }
+
     if (mxIsUint8(input)) {
 
-        int i = 0;
         int width = l;
         int height = mxGetM(input);
         char *r = (char*)mxGetPr(input);
@@ -235,7 +238,7 @@ Region array_to_region(const mxArray* input) {
         }
 
         return p;
-    } else if (mxGetClassID(input) == mxDOUBLE_CLASS) {
+    } else if (mxGetClassID(input) == mxDOUBLE_CLASS && mxGetM(input) == 1) {
         double *r = (double*)mxGetPr(input);
 
         if (l % 2 == 0 && l >= 6) {
@@ -257,6 +260,7 @@ Region array_to_region(const mxArray* input) {
     }
 
     MEX_ERROR("Illegal region format.");
+    return p;
 
 }
 
-- 
2.43.0


From 6bbd9769f51bebb8d1440b45c85dced07aaa4309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:01 +0000
Subject: [PATCH 079/105] fix: masks with a negative offset are converted to
 Octave arrays

---
 support/matlab/helpers.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index ec6911c..d7acedf 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -299,9 +299,9 @@ mxArray* region_to_array(const Region& region) {
         int x, y, width, height;
         region.get_mask_header(&x, &y, &width, &height);
         mwSize dims[2];
-        dims[0] = height + y;
-        dims[1] = width + x;
-        
+        dims[0] = max(0, height + y);
+        dims[1] = max(0, width + x);
+
         val = mxCreateNumericArray(2, dims, mxUINT8_CLASS, mxREAL);
         char *data = (char*) mxGetPr(val);
         memset(data, 0, dims[0] * dims[1]);
@@ -309,7 +309,8 @@ mxArray* region_to_array(const Region& region) {
         for (int i = 0; i < height; i++) {
             const char *row = region.get_mask_row(i);
             for (int j = 0; j < width; j++) {
-                *(data + (j + x) * (height + y) + y + i) = row[j];          
+                if (y + i >= 0 && x + j >= 0)
+                    *(data + (j + x) * (height + y) + y + i) = row[j];
             }
         }
 
-- 
2.43.0


From f844718eec9acf8102c98b52197e574f31737eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:01 +0000
Subject: [PATCH 080/105] fix: the Octave server does not read past its
 arguments

---
 support/matlab/traxserver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/support/matlab/traxserver.cpp b/support/matlab/traxserver.cpp
index 471b5ff..25b0d14 100644
--- a/support/matlab/traxserver.cpp
+++ b/support/matlab/traxserver.cpp
@@ -54,7 +54,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         if ( nrhs > 3 ) {
 
-            for (int i = 3; i < std::floor((float)nrhs/2) * 2; i+=2) {
+            for (int i = 3; i + 1 < nrhs; i+=2) {
                 string key = get_string(prhs[i]);
                 switch (get_argument_code(key)) {
                 case ARGUMENT_TRACKERNAME: tracker_name = get_string(prhs[i+1]); break;
@@ -118,7 +118,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         if ( nrhs > 1 ) {
 
-			for (int i = 1; i < std::floor((float)nrhs/2) * 2; i+=2) {
+			for (int i = 1; i + 1 < nrhs; i+=2) {
 				switch (get_argument_code(get_string(prhs[i]))) {
 				case ARGUMENT_PROPSTRUCT: propstruct = mxGetScalar(prhs[i+1]) > 0; break;
 				default:
@@ -197,7 +197,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         if (nrhs > 2)
             MEX_ERROR("Only one optional string argument allowed.");
-        else
+        else if (nrhs == 2)
             reason = get_string(prhs[1]);
 
         if (handle->terminate(reason) == TRAX_ERROR) {
-- 
2.43.0


From 792f6faa59078f3c64171993d4f368bfce70d057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:01 +0000
Subject: [PATCH 081/105] fix: a failed session of the Octave server is
 released

---
 support/matlab/traxserver.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/support/matlab/traxserver.cpp b/support/matlab/traxserver.cpp
index 25b0d14..ba6496d 100644
--- a/support/matlab/traxserver.cpp
+++ b/support/matlab/traxserver.cpp
@@ -104,6 +104,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         if (!handle->is_alive()) {
             std::string tmp("Unable to initialize protocol: " + handle->get_error());
+            delete handle;
+            handle = NULL;
             MEX_ERROR(tmp.c_str());
         }
 
@@ -151,6 +153,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
         } else if (tr == TRAX_ERROR) {
 
             std::string tmp("Protocol error while waiting: " + handle->get_error());
+            delete handle;
+            handle = NULL;
             MEX_ERROR(tmp.c_str());
 
         } else {
@@ -182,6 +186,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         if (handle->reply(reg, prop) == TRAX_ERROR) {
             std::string tmp("Unable to send reply: " + handle->get_error());
+            delete handle;
+            handle = NULL;
             MEX_ERROR(tmp.c_str());
         }
         
@@ -202,6 +208,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         if (handle->terminate(reason) == TRAX_ERROR) {
             std::string tmp("Unable to terminate protocol: " + handle->get_error());
+            delete handle;
+            handle = NULL;
             MEX_ERROR(tmp.c_str());
         }
 
-- 
2.43.0


From ee6cd2590ca971c5b2b15cb95cb3d5334067f9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 082/105] fix: URL images are converted to Octave strings

---
 support/matlab/helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index d7acedf..249e4d6 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -333,7 +333,7 @@ mxArray* image_to_array(const Image& img) {
         break;
     }
     case TRAX_IMAGE_URL: {
-        std::string s = img.get_path();
+        std::string s = img.get_url();
         const char* cp = s.c_str();
         val = mxCreateCharMatrixFromStrings(1, &cp);
         break;
-- 
2.43.0


From b1e3ed950a62334cddac2e50027818491321749e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:36 +0000
Subject: [PATCH 083/105] fix: the Octave client prints from the interpreter's
 thread only

---
 support/matlab/traxclient.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/support/matlab/traxclient.cpp b/support/matlab/traxclient.cpp
index d10a6d6..39202c6 100644
--- a/support/matlab/traxclient.cpp
+++ b/support/matlab/traxclient.cpp
@@ -131,9 +131,6 @@ bool must_exit() {
 
 #endif
 
-	if (exit_cache)
-		mexPrintf("User termination request detected. Stopping.\n");
-
 	return exit_cache;
 }
 
@@ -410,6 +407,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 		while (true) {
 
 			if (IS_INTERRUPTED) {
+				mexPrintf("User termination request detected. Stopping.\n");
 				interrupted = true;
 				throw std::runtime_error("Tracking interrupted by user");
 			}
-- 
2.43.0


From f87dc481814b32f0004d7c44301368310ca9c37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:36 +0000
Subject: [PATCH 084/105] fix: the Octave client puts the interrupt handler of
 the interpreter back

---
 support/matlab/traxclient.cpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/support/matlab/traxclient.cpp b/support/matlab/traxclient.cpp
index 39202c6..5d3c349 100644
--- a/support/matlab/traxclient.cpp
+++ b/support/matlab/traxclient.cpp
@@ -57,15 +57,17 @@ extern bool utIsInterruptPending();
 	// Probably required for Octave 4.1
 	#define OCTAVE_USE_DEPRECATED_FUNCTIONS 1
 
-	#if (OCTAVE_MAJOR_VERSION >= 4) && (OCTAVE_MINOR_VERSION >= 1)
-		#define SET_INTERRUPT_HANDLER(H) { octave::interrupt_handler h; h.int_handler = H; h.brk_handler = H; octave::set_interrupt_handler(h); }
+	#if (OCTAVE_MAJOR_VERSION > 4) || ((OCTAVE_MAJOR_VERSION == 4) && (OCTAVE_MINOR_VERSION >= 1))
+		#define INTERRUPT_HANDLER octave::interrupt_handler
+		#define SET_INTERRUPT_HANDLER(H) octave::set_interrupt_handler(H)
 	#else
 		#ifdef OCTINTERP_API
 			#undef OCTINTERP_API
 		#endif
 
 		#include <octave/config.h>
-		#define SET_INTERRUPT_HANDLER(H) { octave_interrupt_handler h; h.int_handler = H; octave_set_interrupt_handler(h); }
+		#define INTERRUPT_HANDLER octave_interrupt_handler
+		#define SET_INTERRUPT_HANDLER(H) octave_set_interrupt_handler(H)
 	#endif
 
 	#include <octave/quit.h>
@@ -77,6 +79,25 @@ extern bool utIsInterruptPending();
 		octave_interrupted = true;
 	}
 
+	// Handles interrupts as long as it exists, then the handler of the interpreter is put back
+	class InterruptGuard {
+	public:
+		InterruptGuard() {
+			INTERRUPT_HANDLER h;
+			h.int_handler = &interrupt_handler;
+			h.brk_handler = &interrupt_handler;
+			octave_interrupted = false;
+			previous = SET_INTERRUPT_HANDLER(h);
+		}
+
+		~InterruptGuard() {
+			SET_INTERRUPT_HANDLER(previous);
+		}
+
+	private:
+		INTERRUPT_HANDLER previous;
+	};
+
 	#define IS_INTERRUPTED (octave_interrupted) // (octave_interrupt_state != 0)
 
 #endif
@@ -363,8 +384,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 	}
 
 #ifdef OCTAVE
-	octave_interrupted = false;
-	SET_INTERRUPT_HANDLER(&interrupt_handler);
+	InterruptGuard interrupt_guard;
 #endif
 
 	if (!data) data = mxCreateDoubleMatrix( 0, 0, mxREAL );
-- 
2.43.0


From fde421f0bd30e4285884007320e5dc6ca56e35b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:36 +0000
Subject: [PATCH 085/105] fix: the Octave client reports only the properties of
 the last answer

---
 support/matlab/traxclient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/matlab/traxclient.cpp b/support/matlab/traxclient.cpp
index 5d3c349..9483f68 100644
--- a/support/matlab/traxclient.cpp
+++ b/support/matlab/traxclient.cpp
@@ -471,6 +471,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 			// Start timing a frame
 			timer_state begin = timer_clock();
 
+			st.properties.clear();
+
 			if (!tracker.wait(st.region, st.properties))
 				throw std::runtime_error("Did not receive response.");
 
-- 
2.43.0


From 6e361e4a3d151b8043fc9e35b8c6e688e5b34de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:36 +0000
Subject: [PATCH 086/105] fix: the Octave client prints the log until the
 tracker has ended

---
 support/matlab/traxclient.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/matlab/traxclient.cpp b/support/matlab/traxclient.cpp
index 9483f68..a717950 100644
--- a/support/matlab/traxclient.cpp
+++ b/support/matlab/traxclient.cpp
@@ -482,8 +482,6 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
 		}
 
-		LOGPUSH;
-
 	} catch (const std::runtime_error &e) {
 
 		LOGPUSH;
@@ -505,6 +503,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
 	}
 
+	LOGPUSH;
+
 	if (log) {
 		delete log;
 		log = NULL;
-- 
2.43.0


From 7069f7a2c6e06071b2e044d1cbcb66be2a39f8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:36 +0000
Subject: [PATCH 087/105] fix: the Octave client checks the structure with the
 environment

---
 support/matlab/traxclient.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/matlab/traxclient.cpp b/support/matlab/traxclient.cpp
index a717950..dc47800 100644
--- a/support/matlab/traxclient.cpp
+++ b/support/matlab/traxclient.cpp
@@ -247,7 +247,7 @@ ConnectionMode get_connection_mode(string str) {
 
 void struct_to_env(const mxArray * input, map<string, string>& env) {
 
-	if (!mxIsStruct(input)) {
+	if (!mxIsStruct(input) || mxGetNumberOfElements(input) != 1) {
 		MEX_ERROR("Parameter has to be a structure.");
 	}
 
@@ -256,7 +256,7 @@ void struct_to_env(const mxArray * input, map<string, string>& env) {
 		const char* name = mxGetFieldNameByNumber(input, i);
 		mxArray * value = mxGetFieldByNumber(input, 0, i);
 
-		if (mxIsChar(value)) {
+		if (value && mxIsChar(value)) {
 			string s = get_string(value);
 			env[name] = s;
 		} else MEX_ERROR("Environment values can only be strings.");
-- 
2.43.0


From 6e3b7d06d9bf8958adc525307c7a5527bdfeaf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:36 +0000
Subject: [PATCH 088/105] fix: empty images are refused by the Octave functions

---
 support/matlab/helpers.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 249e4d6..a559371 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -474,6 +474,9 @@ Image array_to_image(const mxArray* arr) {
 
 	}
 
+	if (mxIsEmpty(arr))
+		MEX_ERROR("Illegal image format, the image is empty");
+
 	if (mxIsUint8(arr)) {
 
 		if (ndims > 3)
-- 
2.43.0


From 7c47a177775f0366e7a0e716da0a13fdc30645db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:05 +0000
Subject: [PATCH 089/105] fix: the Octave client notices interrupts in recent
 versions of Octave

---
 support/matlab/traxclient.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/support/matlab/traxclient.cpp b/support/matlab/traxclient.cpp
index dc47800..b545327 100644
--- a/support/matlab/traxclient.cpp
+++ b/support/matlab/traxclient.cpp
@@ -98,7 +98,8 @@ extern bool utIsInterruptPending();
 		INTERRUPT_HANDLER previous;
 	};
 
-	#define IS_INTERRUPTED (octave_interrupted) // (octave_interrupt_state != 0)
+	// Recent versions of Octave receive signals in a separate thread and only raise the interrupt state
+	#define IS_INTERRUPTED (octave_interrupted || octave_interrupt_state > 0)
 
 #endif
 
@@ -497,7 +498,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 		}
 
 #ifdef OCTAVE
-		if (interrupted) octave_handle_signal();
+		if (interrupted || IS_INTERRUPTED) octave_handle_signal();
 #endif
 		MEX_ERROR(e.what());
 
-- 
2.43.0


From 63129ff8cac2307853d271271079a659156f055d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:05 +0000
Subject: [PATCH 090/105] fix: the Octave client closes its log when the
 callback is interrupted

---
 support/matlab/traxclient.cpp | 38 +++++++++++++++++------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/support/matlab/traxclient.cpp b/support/matlab/traxclient.cpp
index b545327..f6b8dfd 100644
--- a/support/matlab/traxclient.cpp
+++ b/support/matlab/traxclient.cpp
@@ -225,6 +225,23 @@ public:
 	nullostream() : std::ostream(&buf) {}
 };
 
+// The log stream and its buffer exist until the function is left in any way
+class LogGuard {
+public:
+	LogGuard(mexstream*& buffer, std::ostream*& stream) : buffer(buffer), stream(stream) {}
+
+	~LogGuard() {
+		if (stream) delete stream;
+		if (buffer) delete buffer;
+		stream = NULL;
+		buffer = NULL;
+	}
+
+private:
+	mexstream*& buffer;
+	std::ostream*& stream;
+};
+
 ConnectionMode get_connection_mode(string str) {
 
 	std::transform(str.begin(), str.end(), str.begin(), ::tolower);
@@ -396,6 +413,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
 	mexstream* mexbuffer = NULL;
 	std::ostream *log = NULL;
+	LogGuard log_guard(mexbuffer, log);
 
 	if (!logfile.empty()) {
 		if (logfile.compare("#") == 0) {
@@ -487,16 +505,6 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
 		LOGPUSH;
 
-		if (log) {
-			delete log;
-			log = NULL;
-		}
-
-		if (mexbuffer) {
-			delete mexbuffer;
-			mexbuffer = NULL;
-		}
-
 #ifdef OCTAVE
 		if (interrupted || IS_INTERRUPTED) octave_handle_signal();
 #endif
@@ -506,16 +514,6 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
 	LOGPUSH;
 
-	if (log) {
-		delete log;
-		log = NULL;
-	}
-
-	if (mexbuffer) {
-		delete mexbuffer;
-		mexbuffer = NULL;
-	}
-
 	if (nlhs > 0) plhs[0] = data;
 
 }
-- 
2.43.0


From aeec849568f375cfc71bdcb0f8425ef20d9fb025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:26 +0000
Subject: [PATCH 091/105] fix: image_to_mat converts grayscale memory images

---
 support/opencv/opencv.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/support/opencv/opencv.cpp b/support/opencv/opencv.cpp
index 4289dd6..0991bf0 100644
--- a/support/opencv/opencv.cpp
+++ b/support/opencv/opencv.cpp
@@ -25,9 +25,13 @@ cv::Mat image_to_mat(const Image& image) {
         cv::Mat tmp(height, width, format == TRAX_IMAGE_MEMORY_RGB ? CV_8UC3 : 
             (format == TRAX_IMAGE_MEMORY_GRAY8 ? CV_8UC1 : CV_16U), const_cast<char *>(data));
 
+        // The matrix has to outlive the image
+        if (tmp.channels() == 1)
+            return tmp.clone();
+
         cv::Mat result;
 
-        cv::cvtColor(tmp, result, cv::COLOR_BGR2RGB);
+        cv::cvtColor(tmp, result, cv::COLOR_RGB2BGR);
         
         return result;
     }
-- 
2.43.0


From fdaf47450b893973324bc0707cae64abcce58a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:26 +0000
Subject: [PATCH 092/105] fix: mat_to_image keeps the pixels of grayscale
 matrices

---
 support/opencv/opencv.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/support/opencv/opencv.cpp b/support/opencv/opencv.cpp
index 0991bf0..2822814 100644
--- a/support/opencv/opencv.cpp
+++ b/support/opencv/opencv.cpp
@@ -104,7 +104,10 @@ Image mat_to_image(const cv::Mat& mat) {
     Image image = Image::create_memory(mat.cols, mat.rows, format);
     char* dst = image.write_memory_row(0);
     cv::Mat tmp(mat.size(), mat.type(), dst);
-    cv::cvtColor(mat, tmp, cv::COLOR_BGR2RGB);
+    if (mat.channels() == 1)
+        mat.copyTo(tmp);
+    else
+        cv::cvtColor(mat, tmp, cv::COLOR_BGR2RGB);
 
     return image;
 }
-- 
2.43.0


From 678cff66b611fa4a4492ff465f0bf164d6e4c3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:26 +0000
Subject: [PATCH 093/105] fix: mat_to_image reports an empty matrix instead of
 aborting

---
 support/opencv/opencv.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/support/opencv/opencv.cpp b/support/opencv/opencv.cpp
index 2822814..9124d5c 100644
--- a/support/opencv/opencv.cpp
+++ b/support/opencv/opencv.cpp
@@ -87,6 +87,9 @@ std::vector<cv::Point2f> region_to_points(const Region& region) {
 
 Image mat_to_image(const cv::Mat& mat) {
 	
+    if (mat.empty())
+        throw std::runtime_error("Matrix contains no image");
+
     int format = 0;
     switch(mat.type()) {
     case CV_8UC1:
-- 
2.43.0


From a5f737e855d3ae480ddf44592e11326dcd0d4c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:26 +0000
Subject: [PATCH 094/105] fix: mat_to_region reports an empty matrix instead of
 aborting

---
 support/opencv/opencv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/opencv/opencv.cpp b/support/opencv/opencv.cpp
index 9124d5c..dccc1e0 100644
--- a/support/opencv/opencv.cpp
+++ b/support/opencv/opencv.cpp
@@ -151,7 +151,7 @@ cv::Mat region_to_mat(const Region& region) {
 
 Region mat_to_region(const cv::Mat& mat) {
 
-    CV_Assert(mat.type() == CV_8UC1);
+    CV_Assert(!mat.empty() && mat.type() == CV_8UC1);
 
     Region r = Region::create_mask(0, 0, mat.cols, mat.rows);
     memcpy(r.write_mask_row(0), mat.data, mat.cols * mat.rows);
-- 
2.43.0


From 7b1014128f285e4711676ea95a1be9c0b553fd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:26 +0000
Subject: [PATCH 095/105] fix: mat_to_region handles matrices with gaps between
 their rows

---
 support/opencv/opencv.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/support/opencv/opencv.cpp b/support/opencv/opencv.cpp
index dccc1e0..576313d 100644
--- a/support/opencv/opencv.cpp
+++ b/support/opencv/opencv.cpp
@@ -154,7 +154,8 @@ Region mat_to_region(const cv::Mat& mat) {
     CV_Assert(!mat.empty() && mat.type() == CV_8UC1);
 
     Region r = Region::create_mask(0, 0, mat.cols, mat.rows);
-    memcpy(r.write_mask_row(0), mat.data, mat.cols * mat.rows);
+    for (int i = 0; i < mat.rows; i++)
+        memcpy(r.write_mask_row(i), mat.ptr(i), mat.cols);
 
     return r;
 
-- 
2.43.0


From 5825167d26bbcb43c971be2ca4bf7fe8567b63c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:26 +0000
Subject: [PATCH 096/105] fix: region_to_rect returns an empty rectangle for an
 empty region

---
 support/opencv/opencv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/opencv/opencv.cpp b/support/opencv/opencv.cpp
index 576313d..b139236 100644
--- a/support/opencv/opencv.cpp
+++ b/support/opencv/opencv.cpp
@@ -51,7 +51,7 @@ cv::Mat image_to_mat(const Image& image) {
 
 cv::Rect region_to_rect(const Region& region) {
 	
-	float x, y, width, height;
+	float x = 0, y = 0, width = 0, height = 0;
 	cv::Rect rect;
 
 	Region trect = region.convert(TRAX_REGION_RECTANGLE);
-- 
2.43.0


From e32b7725ca4e9822e008a74041faba4a88d64930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:26 +0000
Subject: [PATCH 097/105] fix: region_to_mat places the mask at its offset in a
 cleared matrix

---
 support/opencv/opencv.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/support/opencv/opencv.cpp b/support/opencv/opencv.cpp
index b139236..881415f 100644
--- a/support/opencv/opencv.cpp
+++ b/support/opencv/opencv.cpp
@@ -138,11 +138,14 @@ cv::Mat region_to_mat(const Region& region) {
     int height, width, x, y;
     region.get_mask_header(&x, &y, &width, &height);
 
-    cv::Mat result(height + y, width + x, CV_8UC1);
+    // Parts of the mask with negative coordinates are outside of the matrix
+    int left = MAX(0, -x), top = MAX(0, -y);
 
-    for (int i = 0; i < height; i++) {
+    cv::Mat result = cv::Mat::zeros(MAX(0, height + y), MAX(0, width + x), CV_8UC1);
+
+    for (int i = top; i < height && left < width; i++) {
             const char* data = region.get_mask_row(i);
-            memcpy(&(result.data[(i + y) * width + x]), data, width);
+            memcpy(result.ptr(i + y) + x + left, data + left, width - left);
 
     }
     return result;
-- 
2.43.0


From 84647ab3adbff05e20073a878519b1e774784b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:26 +0000
Subject: [PATCH 098/105] fix: draw_region draws masks with the given color on
 any canvas

---
 support/opencv/opencv.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/support/opencv/opencv.cpp b/support/opencv/opencv.cpp
index 881415f..2a2a398 100644
--- a/support/opencv/opencv.cpp
+++ b/support/opencv/opencv.cpp
@@ -197,14 +197,10 @@ void draw_region(cv::Mat& canvas, const Region& region, cv::Scalar color, int wi
 
             cv::Mat mask = region_to_mat(region);
 
-            int width = MIN(canvas.cols, mask.cols);
-            int height = MIN(canvas.rows, mask.rows);
+            cv::Rect common(0, 0, MIN(canvas.cols, mask.cols), MIN(canvas.rows, mask.rows));
 
-            cv::Mat stencil = cv::Mat::zeros(cv::Size(height, width), CV_8UC3);
-
-            stencil(cv::Range(0, height), cv::Range(0, width)).setTo(color, mask);
-
-            canvas = canvas * (1 - stencil) + stencil;
+            if (common.area() > 0)
+                canvas(common).setTo(color, mask(common));
 
             break;
         }
-- 
2.43.0


From 544488bfcd5e937146f4f965968e05de2a5fd4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:12 +0000
Subject: [PATCH 099/105] fix: trax_properties_append keeps existing properties
 unless asked to overwrite

---
 src/trax.c                    | 4 ++--
 src/traxpp.cpp                | 4 ++--
 support/python/trax/server.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index d5d7069..9568374 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -535,8 +535,8 @@ void channels_encode(int channels, char *key) {
 void copy_properties(const trax_properties* source, trax_properties* dest, int flags) {
 
     trax_enumerator f = (flags & COPY_ALL) ?
-     ((flags && COPY_OVERWRITE) ? copy_property_overwrite : copy_property_safe) :
-     ((flags && COPY_OVERWRITE) ? copy_property_external_overwrite : copy_property_external_safe);
+     ((flags & COPY_OVERWRITE) ? copy_property_overwrite : copy_property_safe) :
+     ((flags & COPY_OVERWRITE) ? copy_property_external_overwrite : copy_property_external_safe);
     
     trax_properties_enumerate(source, f, dest);
 
diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 2fff58d..775bf32 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -322,7 +322,7 @@ int Client::wait(Region& region, Properties& properties) {
 		if (trax_object_list_count(tobjects) == 1) {
 			tregion = trax_region_clone(trax_object_list_get(tobjects, 0));
 			region.wrap(tregion);
-			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 0);
+			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 1);
 		}
 		trax_object_list_release(&tobjects);
 	}
@@ -460,7 +460,7 @@ int ServerMOT::wait(ImageList& image, Region& region, Properties& properties) {
 		if (trax_object_list_count(tobjects) == 1) {
 			tregion = trax_region_clone(trax_object_list_get(tobjects, 0));
 			region.wrap(tregion);
-			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 0);
+			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 1);
 		}
 		trax_object_list_release(&tobjects);
 	}
diff --git a/support/python/trax/server.py b/support/python/trax/server.py
index af31087..18f758f 100644
--- a/support/python/trax/server.py
+++ b/support/python/trax/server.py
@@ -146,7 +146,7 @@ class Server(object):
         tproperties = Properties(properties)
         tobjects = wrap_objects(objects)
         if len(objects) > 0:
-            trax_properties_append(tproperties.reference, trax_object_list_properties(tobjects.reference, 0), 0)
+            trax_properties_append(tproperties.reference, trax_object_list_properties(tobjects.reference, 0), 1)
         status = TraxStatus.decode(trax_server_reply(self._handle.reference, tobjects.reference, tproperties.reference))
 
         if status == TraxStatus.ERROR:
-- 
2.43.0


From d709b2a98a874e993cfc9047fdc2a51dfa8e4e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:12 +0000
Subject: [PATCH 100/105] fix: writing to a mask does not change the copies of
 the region

---
 src/traxpp.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 775bf32..bf6f6d5 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -928,6 +928,11 @@ void Region::get_mask_header(int* x, int* y, int* width, int* height) const {
 
 char* Region::write_mask_row(int row) {
 
+	if (claims() > 1) {
+		// Other copies keep their own mask
+		wrap(trax_region_clone(region));
+	}
+
 	return trax_region_write_mask_row(region, row);
 
 }
-- 
2.43.0


From 9e3868904e74d67c3ffa8013e6625e6af9d3d3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:55 +0000
Subject: [PATCH 101/105] fix: traxplayer accepts its documented option -g

---
 support/client/player.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/support/client/player.cpp b/support/client/player.cpp
index 8d7fe74..a67c5a0 100644
--- a/support/client/player.cpp
+++ b/support/client/player.cpp
@@ -252,6 +252,9 @@ int main(int argc, char** argv) {
             case 'X':
                 connection = CONNECTION_SOCKETS;
                 break;
+            case 'g':
+                // Results are always visualized in a window
+                break;
             case 'V':
                 video_file = string(optarg);
                 break;
-- 
2.43.0


From fd869f7d86ccbf57a1bc42ce54740e2ca2187555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:17 +0000
Subject: [PATCH 102/105] fix: traxplayer starts the tracker before it asks for
 its declaration

---
 support/client/player.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/client/player.cpp b/support/client/player.cpp
index a67c5a0..53614c8 100644
--- a/support/client/player.cpp
+++ b/support/client/player.cpp
@@ -309,6 +309,8 @@ int main(int argc, char** argv) {
 
         TrackerProcess tracker(tracker_command, environment, timeout, connection, verbosity);
 
+        tracker.query();
+
         int frame = 0;
         while (true) {
 
-- 
2.43.0


From f35090ddaeab8a08cbf028c1829c101302bedb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:35 +0000
Subject: [PATCH 103/105] fix: traxplayer takes a region dragged in any
 direction and ignores clicks

---
 support/client/player.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/support/client/player.cpp b/support/client/player.cpp
index 53614c8..b0cf58c 100644
--- a/support/client/player.cpp
+++ b/support/client/player.cpp
@@ -91,7 +91,10 @@ void on_mouse(int event, int x, int y, int flags, void* data) {
         rc->start = point;
     } else if ( event == EVENT_LBUTTONUP ) {
         rc->dragging = false;
-        rc->region = Region::create_rectangle(rc->start.x, rc->start.y, point.x - rc->start.x, point.y - rc->start.y);
+        // The mouse can be dragged in any direction, a click is not a region
+        Rect box(rc->start, point);
+        if (box.width > 0 && box.height > 0)
+            rc->region = Region::create_rectangle(box.x, box.y, box.width, box.height);
     }
 
     if (rc->dragging) {
-- 
2.43.0


From fca6ea50ecc39a3fbc122d4ae4810df6deaec557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:09 +0000
Subject: [PATCH 104/105] fix: the bounded overlap uses the size of the current
 image, also of raw images and JPEG images in a buffer or with an EXIF header

---
 support/client/cli.cpp | 82 +++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 50 deletions(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 4a912a2..4f17d71 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -191,73 +191,52 @@ typedef struct image_size {
 // Retrieve image size from image header
 image_size image_get_size(Image image) {
 
-    int len;
     image_size result;
-    unsigned char buf[24];
+    string data;
+
+    result.width = -1;
+    result.height = -1;
 
     if (image.type() == TRAX_IMAGE_MEMORY) {
 
-        image.get_memory_header(&result.width, &result.height, NULL);
+        int format;
+        image.get_memory_header(&result.width, &result.height, &format);
         return result;
 
     }
 
     if (image.type() == TRAX_IMAGE_PATH) {
-        const string filename = image.get_path();
-        int r;
-
-        result.width = -1;
-        result.height = -1;
 
-        FILE *f=fopen(filename.c_str(),"rb");
-        if ( f==0 ) return result;
+        std::ifstream input(image.get_path().c_str(), std::ios::binary);
+        if (!input.is_open()) return result;
 
-        fseek(f,0,SEEK_END);
-        int len=ftell(f);
-        fseek(f,0,SEEK_SET);
+        data.assign(std::istreambuf_iterator<char>(input), std::istreambuf_iterator<char>());
 
-        if (len<24) {fclose(f); return result;}
-
-        // Strategy:
-        // reading GIF dimensions requires the first 10 bytes of the file
-        // reading PNG dimensions requires the first 24 bytes of the file
-        // reading JPEG dimensions requires scanning through jpeg chunks
-        // In all formats, the file is at least 24 bytes big, so we'll read that always    
-        r = fread(buf,1,24,f);
-        if (r == -1) {
-            return result;
-        }
-
-        // For JPEGs, we need to read the first 12 bytes of each chunk.
-        // We'll read those 12 bytes at buf+2...buf+14, i.e. overwriting the existing buf.
-        if (buf[0]==0xFF && buf[1]==0xD8 && buf[2]==0xFF && buf[3]==0xE0 && buf[6]=='J' && buf[7]=='F' && buf[8]=='I' && buf[9]=='F') {
-            long pos=2;
-            while (buf[2]==0xFF) {
-                if (buf[3]==0xC0 || buf[3]==0xC1 || buf[3]==0xC2 || buf[3]==0xC3 || buf[3]==0xC9 || buf[3]==0xCA || buf[3]==0xCB) break;
-                pos += 2+(buf[4]<<8)+buf[5];
-                if (pos+12>len) break;
-                fseek(f,pos,SEEK_SET);
-                r = fread(buf+2,1,12,f);
-                if (r == -1) { return result; }
-            }
-        }
-
-        fclose(f);
-        
     } else if (image.type() == TRAX_IMAGE_BUFFER) {
 
-        const char* src = image.get_buffer(&len, NULL);
+        int length, format;
+        const char* src = image.get_buffer(&length, &format);
+        data.assign(src, length);
 
-        if (len<24) { return result; }
+    }
 
-        memcpy(buf, src, 24);
+    const size_t len = data.size();
+    const unsigned char* buf = (const unsigned char*) data.data();
 
-    }
+    if (len < 24) return result;
 
-    // JPEG: (first two bytes of buf are first two bytes of the jpeg file; rest of buf is the DCT frame
+    // JPEG: the size is in the frame header, the chunks before it have to be skipped
     if (buf[0]==0xFF && buf[1]==0xD8 && buf[2]==0xFF) {
-        result.height = (buf[7]<<8) + buf[8];
-        result.width = (buf[9]<<8) + buf[10];
+        size_t pos = 2;
+        while (pos + 9 <= len && buf[pos] == 0xFF) {
+            const unsigned char marker = buf[pos + 1];
+            if (marker >= 0xC0 && marker <= 0xCF && marker != 0xC4 && marker != 0xC8 && marker != 0xCC) {
+                result.height = (buf[pos + 5]<<8) + buf[pos + 6];
+                result.width = (buf[pos + 7]<<8) + buf[pos + 8];
+                break;
+            }
+            pos += marker == 0xFF ? 1 : 2 + (buf[pos + 2]<<8) + buf[pos + 3];
+        }
     }
 
     // GIF: first three bytes say "GIF", next three give version number. Then dimensions
@@ -291,6 +270,8 @@ image_size image_get_size(ImageList image) {
     }
 
     image_size size;
+    size.width = -1;
+    size.height = -1;
     return size;
 }
 
@@ -677,7 +658,8 @@ int main( int argc, char** argv) {
                         if (overlap_bounded) {
                             image_size is = image_get_size(image);
                             print_debug("Bounds for overlap calculation %dx%d\n", is.width, is.height);
-                            bounds = Bounds(0, 0, is.width, is.height);
+                            if (is.width > 0 && is.height > 0)
+                                bounds = Bounds(0, 0, is.width, is.height);
                         }
 
                         float overlap = reference.overlap(status, bounds);
@@ -715,7 +697,7 @@ int main( int argc, char** argv) {
                     if (frame >= images.size()) break;
 
                     print_debug("Loading frame images.\n");
-                    ImageList image = load_images(images[frame], metadata.channels(), metadata.image_formats());
+                    image = load_images(images[frame], metadata.channels(), metadata.image_formats());
 
                     // Start timing a frame
                     timing_start = timer_clock();
-- 
2.43.0


From e1c0d7b818e6bca5267e77f55e06b34ad5e1a1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:51 +0000
Subject: [PATCH 105/105] fix: JPEG images other than JFIF ones are accepted in
 a buffer

---
 src/trax.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 9568374..33315e3 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -135,10 +135,11 @@ char* parse_uri(char* buffer) {
 int verify_image_format(const char* buffer) {
 
     int i;
-    char jpeg_prefix[] = { (char) 255, (char) 216, (char) 255, (char) 224 };
+    char jpeg_prefix[] = { (char) 255, (char) 216, (char) 255 };
     char png_prefix[] = { (char) 137, (char) 80, (char) 78, (char) 71 };
 
-    for (i = 0; i < 4; i++) {
+    // The byte after the prefix depends on the flavor (JFIF, EXIF, ...)
+    for (i = 0; i < 3; i++) {
         if (buffer[i] != jpeg_prefix[i])
             goto png;
     }
-- 
2.43.0

