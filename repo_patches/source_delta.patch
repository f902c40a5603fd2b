From 02461b138ce14d44bcdbcc5e45859988e6f569fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:44 +0000
Subject: [PATCH 01/32] fix: refuse commands with embedded NUL bytes

The authorization checks look at the data up to the first NUL byte only,
while all of it was forwarded to the monitoring core.
---
 src/server/server.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/server.c b/src/server/server.c
index 0fcd193..a89c8cf 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -233,7 +233,9 @@ handle_push(tls_state * restrict tls, char * restrict data)
 
 	info("%s C: %.*s", tls->peer, width, data);
 
-	if (is_authorized(tls->id, data)) {
+	/* The data is authorized as a string, so it must not contain NULs. */
+	if (strlen(data) == connection->input_length
+	    && is_authorized(tls->id, data)) {
 		notice("Queuing data from %s: %.*s", tls->peer, width, data);
 		fifo_write(connection->ctx->fifo, data,
 		    connection->input_length, free);
-- 
2.43.0


From 3e95725f1876c58ba3476be6fabea6f1a30f5cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:44 +0000
Subject: [PATCH 02/32] fix: read the next request after answering NOOP

---
 src/server/server.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/server.c b/src/server/server.c
index a89c8cf..3f29d64 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -194,9 +194,10 @@ handle_connection(tls_state * restrict tls, char * restrict line)
 
 	info("%s C: %s", tls->peer, line);
 
-	if (strncasecmp("NOOP", line, 4) == 0)
+	if (strncasecmp("NOOP", line, 4) == 0) {
 		send_response(tls, "OKAY");
-	else if (strncasecmp("PUSH", line, 4) == 0) {
+		tls_read_line(tls, handle_connection);
+	} else if (strncasecmp("PUSH", line, 4) == 0) {
 		if (!parse_line(line, args, 2)) {
 			warning("Cannot parse PUSH request from %s", tls->peer);
 			send_response(tls, "FAIL Cannot parse PUSH request");
-- 
2.43.0


From ba8a1dd2c4db1ad7b6b05776057f517df3993486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:44 +0000
Subject: [PATCH 03/32] fix: require the timestamp at the start of a command

Only the text following the first closing bracket is checked against the
authorization patterns, so everything in front of it went unchecked.
---
 src/server/auth.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server/auth.c b/src/server/auth.c
index f76124c..d4866ec 100644
--- a/src/server/auth.c
+++ b/src/server/auth.c
@@ -93,6 +93,11 @@ is_authorized(const char * restrict identity, const char * restrict command)
 		error("Cannot find authorizations for %s", identity);
 		return false;
 	}
+	if (*command != '[') {
+		warning("Command submitted by %s doesn't start with a timestamp",
+		    identity);
+		return false;
+	}
 	if ((newline = strchr(command, '\n')) == NULL) {
 		warning("Command submitted by %s isn't newline-terminated",
 		    identity);
-- 
2.43.0


From 32c70772a90517f9f9a8731e0a54e904b40b02f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 04/32] fix: free the client identity if the handshake doesn't
 complete

The ID stored by the PSK callback leaked when the handshake failed, when the
callback was invoked again, and when the ID couldn't be stored.
---
 src/common/tls.c  | 3 +++
 src/server/auth.c | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 9b89bce..fc8a4cf 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -532,6 +532,8 @@ tls_free(tls_state *tls)
 		free(tls->addr);
 	if (tls->id != NULL)
 		free(tls->id);
+	if (tls->ssl != NULL) /* We might not have taken over this ID (yet). */
+		free(SSL_get_app_data(tls->ssl));
 	if (tls->peer != NULL)
 		free(tls->peer);
 	if (tls->ssl != NULL)
@@ -638,6 +640,7 @@ accept_ssl_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 			error("Cannot retrieve client identity");
 			tls_free(tls);
 		} else {
+			(void)SSL_set_app_data(tls->ssl, NULL); /* It's ours. */
 			xasprintf(&tls->peer, "%s@%s", tls->id, tls->addr);
 			debug("TLS handshake with %s successful", tls->peer);
 			ev_io_stop(EV_A_ w);
diff --git a/src/server/auth.c b/src/server/auth.c
index d4866ec..3576f9b 100644
--- a/src/server/auth.c
+++ b/src/server/auth.c
@@ -31,6 +31,7 @@
 
 #include <sys/types.h>
 #include <regex.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include <confuse.h>
@@ -55,6 +56,7 @@ check_psk(SSL *ssl, const char *identity, unsigned char *password,
 {
 	cfg_t *auth;
 	const char *configured_pw;
+	char *id;
 	size_t password_len;
 
 	if ((auth = hash_lookup(identity)) == NULL
@@ -68,8 +70,11 @@ check_psk(SSL *ssl, const char *identity, unsigned char *password,
 	 * With (at least) OpenSSL 1.1.1b, SSL_get_psk_identity(3) returns NULL
 	 * when TLSv1.3 is used.  As a workaround, we store the ID ourselves:
 	 */
-	if (SSL_set_app_data(ssl, xstrdup(identity)) != 1) {
+	id = xstrdup(identity);
+	free(SSL_get_app_data(ssl));
+	if (SSL_set_app_data(ssl, id) != 1) {
 		error("Cannot store client-supplied ID (`%s')", identity);
+		free(id);
 		return 0;
 	}
 
-- 
2.43.0


From 4732a2205ac80a4440e32f9626a13c9088fe3986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 05/32] fix: close an accepted socket that has no SSL object
 yet

---
 src/common/tls.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/tls.c b/src/common/tls.c
index fc8a4cf..705ff6a 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -538,6 +538,8 @@ tls_free(tls_state *tls)
 		free(tls->peer);
 	if (tls->ssl != NULL)
 		SSL_free(tls->ssl);
+	else if (tls->bio != NULL)
+		BIO_free_all(tls->bio);
 
 	free(tls);
 }
-- 
2.43.0


From 846d44224f00b4c51ec05ac4adf60976beac4eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 06/32] fix: close the temporary file if writing to it failed

---
 src/server/fifo.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index df044ec..de8f1aa 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -402,14 +402,16 @@ async_cb(EV_P_ ev_async *w, int revents __attribute__((__unused__)))
 	fifo->free_aio_buf((void *)fifo->async_cb.aio_buf);
 	fifo->async_cb.aio_buf = NULL;
 
-	if ((result = aio_error(&fifo->async_cb)) != 0)
+	if ((result = aio_error(&fifo->async_cb)) != 0) {
 		error("Cannot write to %s: %s", fifo->dump_file,
 		    strerror(result));
-	else if ((n = aio_return(&fifo->async_cb))
-	    != (ssize_t)fifo->async_cb.aio_nbytes) /* Presumably an error. */
+		(void)close_dump_file(fifo);
+	} else if ((n = aio_return(&fifo->async_cb))
+	    != (ssize_t)fifo->async_cb.aio_nbytes) { /* Presumably an error. */
 		error("Wrote %zd instead of %zu bytes to %s", n,
 		    fifo->async_cb.aio_nbytes, fifo->dump_file);
-	else {
+		(void)close_dump_file(fifo);
+	} else {
 		char *command = make_process_file_command(fifo);
 
 		debug("Wrote %zd bytes to %s", n, fifo->dump_file);
-- 
2.43.0


From ef19ebadef190f79cd0dbb697622d66830ae682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 07/32] fix: free the PROCESS_FILE command if it isn't
 submitted

---
 src/server/fifo.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index de8f1aa..da80d62 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -417,6 +417,8 @@ async_cb(EV_P_ ev_async *w, int revents __attribute__((__unused__)))
 		debug("Wrote %zd bytes to %s", n, fifo->dump_file);
 		if (close_dump_file(fifo))
 			fifo_write(fifo, command, strlen(command), free);
+		else
+			free(command);
 	}
 
 	if (buffers_exceed_pipe_size(fifo))
@@ -479,6 +481,8 @@ sync_dump_data(fifo_state *fifo)
 	command = make_process_file_command(fifo);
 	if (close_dump_file(fifo))
 		fifo_write(fifo, command, strlen(command), free);
+	else
+		free(command);
 }
 
 #endif
-- 
2.43.0


From 6a35cfcc273c6cdfe3c46b6ee610bc303182cfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 08/32] fix: don't modify the timer for reopening the command
 file while it's active

---
 src/server/fifo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index da80d62..5444039 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -263,7 +263,8 @@ open_cb(EV_P_ ev_timer *w, int revents)
 			dispatch_data(fifo);
 	}
 
-	if (fifo->fd == -1) {
+	/* The write_cb() function might have closed the file again. */
+	if (fifo->fd == -1 && !ev_is_active(w)) {
 		ev_timer_set(&fifo->open_watcher, TIMEOUT, 0.0);
 		ev_timer_start(EV_A_ w);
 	}
-- 
2.43.0


From e07202606bd64fdb4e620c504b371c7b91a0b831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 09/32] fix: wait for asynchronous I/O to complete before
 freeing its data

---
 src/server/fifo.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index 5444039..a105077 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -201,8 +201,17 @@ fifo_stop(fifo_state *fifo)
 	debug("Stopping command file writer");
 
 #if HAVE_POSIX_AIO
-	if (ev_is_active(&fifo->async_watcher))
+	if (ev_is_active(&fifo->async_watcher)) {
+		const struct aiocb *request[] = { &fifo->async_cb };
+
+		/* Don't free memory that's still being used for AIO. */
+		while (aio_error(&fifo->async_cb) == EINPROGRESS)
+			(void)aio_suspend(request, 1, NULL);
+
 		ev_async_stop(EV_DEFAULT_UC_ &fifo->async_watcher);
+		fifo->free_aio_buf((void *)fifo->async_cb.aio_buf);
+		(void)close_dump_file(fifo);
+	}
 #else
 	if (ev_is_active(&fifo->idle_watcher))
 		ev_idle_stop(EV_DEFAULT_UC_ &fifo->idle_watcher);
-- 
2.43.0


From 4ee19a9795a0851a499ccd8d4c85be40a4b7b3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 10/32] fix: anchor all alternatives of an authorization
 pattern

With a pattern such as 'foo|bar', only the first alternative was anchored at
the beginning, and only the last one at the end.
---
 src/server/conf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/conf.c b/src/server/conf.c
index 6bed98f..9e4c6f8 100644
--- a/src/server/conf.c
+++ b/src/server/conf.c
@@ -241,7 +241,7 @@ host_to_command(const char *host_pattern)
 {
 	char *command_pattern;
 
-	xasprintf(&command_pattern, "PROCESS_HOST_CHECK_RESULT;%s;.+",
+	xasprintf(&command_pattern, "PROCESS_HOST_CHECK_RESULT;(%s);.+",
 	    host_pattern);
 
 	return command_pattern;
@@ -262,7 +262,7 @@ service_to_command(const char *service_pattern)
 	service_part = pattern;
 
 	xasprintf(&command_pattern,
-	    "PROCESS_SERVICE_CHECK_RESULT;%s;%s;.+;.+",
+	    "PROCESS_SERVICE_CHECK_RESULT;(%s);(%s);.+;.+",
 	    host_part, service_part);
 
 	free(pattern);
@@ -302,7 +302,7 @@ parse_command_pattern_cb(cfg_t * restrict cfg, cfg_opt_t * restrict opt,
 	char errbuf[128];
 	int success;
 
-	xasprintf(&pattern, "^%s\n?$", value);
+	xasprintf(&pattern, "^(%s)\n?$", value);
 	*re = xmalloc(sizeof(regex_t));
 	if ((success = regcomp(*re, pattern, REG_EXTENDED | REG_NOSUB)) != 0) {
 		(void)regerror(success, *re, errbuf, sizeof(errbuf));
-- 
2.43.0


From 42fdfb9b95af7888ce52c9d7c6c92b989dc8d933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 11/32] fix: don't clean up twice if restarting fails

---
 src/server/nsca-ng.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index b14a1cf..5aeefef 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -372,8 +372,9 @@ drop_privileges(const char *user, const char *new_root)
 static void
 remove_pidfile(void)
 {
-	if (pid_file != NULL && pidfile_remove(pfh) == -1) {
-		error("Cannot remove %s: %m", pid_file);
+	if (pid_file != NULL) {
+		if (pidfile_remove(pfh) == -1)
+			error("Cannot remove %s: %m", pid_file);
 		pid_file = NULL; /* Don't retry removing the PID file. */
 	}
 }
@@ -394,6 +395,8 @@ forget_config(void)
 			}
 		}
 		cfg_free(cfg);
+		cfg = NULL;
+		pid_file = NULL; /* This pointed into the configuration. */
 	}
 }
 
-- 
2.43.0


From 8f29bf3f3b44686a320e36eeae241d08ea5f8f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 12/32] fix: handle a backslash at the end of the configuration
 file

The line was truncated without being terminated.
---
 src/client/conf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/conf.c b/src/client/conf.c
index deb53f7..f755445 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -302,7 +302,7 @@ read_conf_line(FILE *f)
 			line = xrealloc(line, size *= 2);
 		else {
 			line_number++;
-			if (pos >= 2) {
+			if (pos >= 2 && line[pos - 1] == '\n') {
 				if (line[pos - 2] == '\\') {
 					pos -= 2;
 					continue;
@@ -320,6 +320,7 @@ read_conf_line(FILE *f)
 		free(line);
 		return NULL;
 	}
+	line[pos] = '\0'; /* The last line might have been a continued one. */
 	chomp(line);
 	return xrealloc(line, pos + 1);
 }
-- 
2.43.0


From b4bf5f22c32207cfacd726a755a08579870da0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 13/32] fix: use the correct format for the PUSH size

---
 src/client/client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/client.c b/src/client/client.c
index 2e8e3e2..e981fae 100644
--- a/src/client/client.c
+++ b/src/client/client.c
@@ -143,7 +143,7 @@ handle_input_chunk(input_state * restrict input, char * restrict chunk)
 	client->command_length = strlen(client->command);
 	client->command[client->command_length++] = '\n';
 
-	xasprintf(&request, "PUSH %u", client->command_length);
+	xasprintf(&request, "PUSH %zu", client->command_length);
 	info("%s C: %s", client->tls->peer, request);
 	tls_write_line(client->tls, request);
 	free(request);
-- 
2.43.0


From 7933e072e716cf32578529ed00e40bfd90bb609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 14/32] fix: don't read outside the received response in the
 Perl/Python modules

This happened with empty lines, and with responses without a message.
---
 perl/client.c   | 4 ++--
 python/client.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 18f0ef4..45d8701 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -188,7 +188,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 	int rc;
 	time_t endtime;
 	fd_set fdset;
-	char buf[1024];
+	char buf[1024] = "";
 	int was_read = 0;
 	char *ptr = buf;
 	struct timeval tv;
@@ -206,7 +206,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			ptr = buf + was_read;
 
 			if (buf[was_read - 1] == '\n') {
-				if (buf[was_read - 2] == '\r')
+				if (was_read > 1 && buf[was_read - 2] == '\r')
 					buf[was_read - 2] = 0x00;
 				else
 					buf[was_read - 1] = 0x00;
diff --git a/python/client.c b/python/client.c
index 12747b9..6d6c89a 100644
--- a/python/client.c
+++ b/python/client.c
@@ -226,7 +226,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 	int rc;
 	time_t endtime;
 	fd_set fdset;
-	char buf[1024];
+	char buf[1024] = "";
 	int was_read = 0;
 	char *ptr = buf;
 	struct timeval tv;
@@ -244,7 +244,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			ptr = buf + was_read;
 
 			if (buf[was_read - 1] == '\n') {
-				if (buf[was_read - 2] == '\r')
+				if (was_read > 1 && buf[was_read - 2] == '\r')
 					buf[was_read - 2] = 0x00;
 				else
 					buf[was_read - 1] = 0x00;
-- 
2.43.0


From c8730d6dc8d5ef61b40a93057bfd22fea31f74ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 15/32] fix: send complete BAIL message in the Perl/Python
 modules

---
 perl/client.c   | 4 ++--
 python/client.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 45d8701..e802ae8 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -256,9 +256,9 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else {
-		char *msg = "BAIL Unknown response!";
+		char *msg = "BAIL Unknown response!\r\n";
 
-		nscang_client_write(c, msg, sizeof(msg), 0);
+		nscang_client_write(c, msg, strlen(msg), 0);
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_UNKNOWN_RESPONSE;
 		strncpy(c->errstr, buf, sizeof(c->errstr) - 1);
diff --git a/python/client.c b/python/client.c
index 6d6c89a..c75d0e1 100644
--- a/python/client.c
+++ b/python/client.c
@@ -294,9 +294,9 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else {
-		char *msg = "BAIL Unknown response!";
+		char *msg = "BAIL Unknown response!\r\n";
 
-		nscang_client_write(c, msg, sizeof(msg), 0);
+		nscang_client_write(c, msg, strlen(msg), 0);
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_UNKNOWN_RESPONSE;
 		strncpy(c->errstr, buf, sizeof(c->errstr) - 1);
-- 
2.43.0


From 342b7d2983b06449fe599d82f901e4e808a5af02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 16/32] fix: don't write outside the buffer if a message is too
 long

---
 python/client.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/client.c b/python/client.c
index c75d0e1..8290686 100644
--- a/python/client.c
+++ b/python/client.c
@@ -384,6 +384,11 @@ nscang_client_send_push(nscang_client_t *c, char *host, char *service,
 		    "[%u] PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s",
 		    (unsigned int)time(NULL), host, service, status, message);
 
+	if (len < 0)
+		len = 0;
+	else if (len > (int)sizeof(command) - 2) /* The output was truncated. */
+		len = sizeof(command) - 2;
+
 	command[len++] = '\n';
 
 	snprintf(cmd, sizeof(cmd), "PUSH %d\n", len);
-- 
2.43.0


From 9ae657b5e2a896c52b5ed7a058baf895b2731048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 17/32] fix: don't write outside the buffer if a command is too
 long

---
 perl/client.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index e802ae8..3c87eac 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -358,8 +358,8 @@ nscang_client_send_command(nscang_client_t *c, const char *command, int timeout)
          break;
       case 1 :
          // Timestamp found, just copy everything
-         strncpy(command_buf, command, sizeof(command_buf)-1);
-         command_buf[sizeof(command_buf)-1] = '\0';
+         strncpy(command_buf, command, sizeof(command_buf)-2);
+         command_buf[sizeof(command_buf)-2] = '\0'; // leave room for newline
          break;
       default :
          // Malformed timestamp
-- 
2.43.0


From 8c3773744d48ef68cff9d7bc6ed53f837e80504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:48 +0000
Subject: [PATCH 18/32] fix: don't look at an old errno value when checking a
 timestamp

---
 perl/client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/perl/client.c b/perl/client.c
index 3c87eac..53f9abe 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -27,6 +27,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <errno.h>
 #include <string.h>
 #include <time.h>
 
@@ -337,6 +338,7 @@ has_timestamp_prefix(const char *s)
 
    if(*s++ != '[') return 0;
    if((*s < '0') || (*s > '9')) return -1; // counter strtol's skip-whitespace and sign permissiveness
+   errno = 0;
    (void)strtol(s, &end, 10); // discard result
    if(errno) return -1;
    if(*end == ']') return 1;
-- 
2.43.0


From b75b7711dabae4aab4e93bb161bec5ac98a66671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:48 +0000
Subject: [PATCH 19/32] fix: clean up properly if initializing a Perl/Python
 client fails

Don't deregister a client that wasn't registered, and free the BIO object if
there's no SSL object which owns it.
---
 perl/client.c   | 5 ++++-
 python/client.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 53f9abe..a1b914b 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -126,13 +126,16 @@ nscang_client_free(nscang_client_t *c)
 	if (c->state != NSCANG_STATE_NONE)
 		nscang_client_disconnect(c);
 
-	if (c->ssl != NULL) {
+	if (c->state != NSCANG_STATE_NONE) { /* The client was registered. */
       HASH_DEL(nscang_client_instances, c);
 	}
 	if (c->ssl != NULL) {
 		SSL_free(c->ssl);
 		c->ssl = NULL;
 		c->bio = NULL;
+	} else if (c->bio != NULL) {
+		BIO_free(c->bio);
+		c->bio = NULL;
 	}
 	if (c->ssl_ctx != NULL) {
 		SSL_CTX_free(c->ssl_ctx);
diff --git a/python/client.c b/python/client.c
index 8290686..70dc8e6 100644
--- a/python/client.c
+++ b/python/client.c
@@ -151,7 +151,7 @@ nscang_client_free(nscang_client_t *c)
 	if (c->state != NSCANG_STATE_NONE)
 		nscang_client_disconnect(c);
 
-	if (c->ssl != NULL) {
+	if (c->state != NSCANG_STATE_NONE) { /* The client was registered. */
 		int rc;
 
 		/* Busyloop until we get an rw lock. */
@@ -170,6 +170,9 @@ nscang_client_free(nscang_client_t *c)
 		SSL_free(c->ssl);
 		c->ssl = NULL;
 		c->bio = NULL;
+	} else if (c->bio != NULL) {
+		BIO_free(c->bio);
+		c->bio = NULL;
 	}
 	if (c->ssl_ctx != NULL) {
 		SSL_CTX_free(c->ssl_ctx);
-- 
2.43.0


From b6f33ffec14c6b05b73d5da104b295fc813b68a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:48 +0000
Subject: [PATCH 20/32] fix: don't use a server response as a format string

---
 perl/Client.xs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/perl/Client.xs b/perl/Client.xs
index 0af06a2..2d992d3 100644
--- a/perl/Client.xs
+++ b/perl/Client.xs
@@ -218,4 +218,4 @@ command(self, command)
    self->client_initialized = 0;
    nscang_client_free(&(self->client));
 
-   croak(errstr);
+   croak("%s", errstr);
-- 
2.43.0


From 5d8ee6e3dc885f8c4fc6e94c7730ae3f1fe9c83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 21/32] fix: cope with uninitialized Python clients and free
 their memory

Destroying an object whose initialization had failed, and calling methods of
such objects, crashed the interpreter.
---
 python/nscang.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/python/nscang.c b/python/nscang.c
index 1fd59d9..f8d4c5d 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -60,6 +60,11 @@ nscang_host_result(PyObject *self, PyObject *args, PyObject *kwds)
 	    kwlist, &host, &rc, &output, &timeout))
 		return NULL;
 
+	if (client == NULL) {
+		PyErr_SetString(PyExc_RuntimeError, "Client not initialized");
+		return NULL;
+	}
+
 	if (nscang_client_send_push(client, host, NULL, rc, output, timeout)) {
 		Py_INCREF(Py_None);
 		return Py_None;
@@ -94,6 +99,11 @@ nscang_svc_result(PyObject *self, PyObject *args, PyObject *kwds)
 	    kwlist, &host, &service, &rc, &output, &timeout))
 		return NULL;
 
+	if (client == NULL) {
+		PyErr_SetString(PyExc_RuntimeError, "Client not initialized");
+		return NULL;
+	}
+
 	if (nscang_client_send_push(client, host, service, rc, output, timeout)) {
 		Py_INCREF(Py_None);
 		return Py_None;
@@ -111,6 +121,16 @@ nscang_svc_result(PyObject *self, PyObject *args, PyObject *kwds)
 	return NULL;
 }
 
+static void
+NSCAngNotifyer_cleanup(NSCAngNotifyer *self)
+{
+	if (self->client != NULL) {
+		nscang_client_free(self->client);
+		free(self->client);
+		self->client = NULL;
+	}
+}
+
 static int
 NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 {
@@ -118,6 +138,8 @@ NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 	static char *kwlist[] = { "host", "port", "identity", "psk", "ciphers",
 	    NULL };
 
+	NSCAngNotifyer_cleanup(self); /* In case we're called repeatedly. */
+
 	self->host = NULL;
 	self->port = 5668;
 	self->identity = NULL;
@@ -140,6 +162,7 @@ NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 		self->ciphers, self->identity, self->psk)) {
 		PyErr_Format(PyExc_RuntimeError, "nscang_client_init: %s",
 		    nscang_client_errstr(self->client, errstr, sizeof(errstr)));
+		NSCAngNotifyer_cleanup(self);
 		return -1;
 	}
 
@@ -149,7 +172,7 @@ NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 static void
 NSCAngNotifyer_dealloc(NSCAngNotifyer *self)
 {
-	nscang_client_free(self->client);
+	NSCAngNotifyer_cleanup(self);
 	Py_TYPE(self)->tp_free((PyObject *)self);
 }
 
-- 
2.43.0


From 40d77934d340f9a3df21d727dbfec454b973f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 22/32] fix: don't let the Python client's host attribute
 dangle

---
 python/nscang.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/python/nscang.c b/python/nscang.c
index f8d4c5d..02fc6eb 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -140,6 +140,7 @@ NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 
 	NSCAngNotifyer_cleanup(self); /* In case we're called repeatedly. */
 
+	free(self->host);
 	self->host = NULL;
 	self->port = 5668;
 	self->identity = NULL;
@@ -148,8 +149,16 @@ NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 
 	if (!PyArg_ParseTupleAndKeywords(args, kwds, "sIss|s:__init__", kwlist,
 	    &self->host, &self->port, &self->identity,
-	    &self->psk, &self->ciphers))
+	    &self->psk, &self->ciphers)) {
+		self->host = NULL; /* It isn't ours. */
 		return -1;
+	}
+
+	/* The string is exported, so it has to outlive our arguments. */
+	if ((self->host = strdup(self->host)) == NULL) {
+		PyErr_NoMemory();
+		return -1;
+	}
 
 	self->client = malloc(sizeof(nscang_client_t));
 	if (self->client == NULL) {
@@ -173,6 +182,7 @@ static void
 NSCAngNotifyer_dealloc(NSCAngNotifyer *self)
 {
 	NSCAngNotifyer_cleanup(self);
+	free(self->host);
 	Py_TYPE(self)->tp_free((PyObject *)self);
 }
 
-- 
2.43.0


From d5ae9c19603d1dd39a28d90ccae82f32479fe409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 23/32] fix: check whether BIO objects could be created

---
 src/client/client.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/client.c b/src/client/client.c
index e981fae..c1e8e19 100644
--- a/src/client/client.c
+++ b/src/client/client.c
@@ -320,8 +320,9 @@ base64(const unsigned char *input, size_t input_size)
 	char *mem_data, *output;
 	long output_size;
 
-	bio_mem = BIO_new(BIO_s_mem());
-	bio_b64 = BIO_new(BIO_f_base64());
+	if ((bio_mem = BIO_new(BIO_s_mem())) == NULL
+	    || (bio_b64 = BIO_new(BIO_f_base64())) == NULL)
+		die("Cannot create BIO object");
 	BIO_set_flags(bio_b64, BIO_FLAGS_BASE64_NO_NL);
 	bio_b64 = BIO_push(bio_b64, bio_mem);
 	(void)BIO_write(bio_b64, input, (int)input_size);
-- 
2.43.0


From 0eaadad14799179082cc43e6e37ea646109fcf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 24/32] fix: don't recurse for each empty input line

Reading input chunks that are empty lines called the I/O callback again
from within itself, so that the stack grew with the number of empty
lines in the buffer.  Let the event loop call it instead.
---
 src/client/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/input.c b/src/client/input.c
index 5b350c7..2c7658e 100644
--- a/src/client/input.c
+++ b/src/client/input.c
@@ -82,7 +82,7 @@ input_read_chunk(input_state *input, void handle_read(input_state *, char *))
 	if (!input->eof) {
 		input->read_handler = handle_read;
 		ev_io_start(EV_DEFAULT_UC_ &input->watcher);
-		ev_invoke(EV_DEFAULT_UC_ &input->watcher, EV_CUSTOM);
+		ev_feed_event(EV_DEFAULT_UC_ &input->watcher, EV_CUSTOM);
 	} else {
 		debug("There's no (more) data available");
 		if (input->eof_handler != NULL)
-- 
2.43.0


From 6aef2feb72a1dc1b6093bf08370c684300ce38b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 25/32] fix: free the command if the server refuses it

The command was leaked if the server answered the PUSH request with FAIL
or BAIL.
---
 src/client/client.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/client.c b/src/client/client.c
index c1e8e19..c7f303d 100644
--- a/src/client/client.c
+++ b/src/client/client.c
@@ -219,9 +219,10 @@ handle_tls_push_response(tls_state * restrict tls, char * restrict line)
 		    (int)client->command_length - 1, client->command);
 		tls_write(tls, client->command, client->command_length, free);
 		tls_read_line(tls, handle_tls_command_response);
-	} else if (!server_is_grumpy(tls, line)) {
+	} else {
 		free(client->command);
-		bail(tls, "Received unexpected PUSH response");
+		if (!server_is_grumpy(tls, line))
+			bail(tls, "Received unexpected PUSH response");
 	}
 
 	free(line);
-- 
2.43.0


From b0b12a450385e708bfc22ce3cd0fe8b2d1cc44b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 26/32] fix: refuse a timeout that is not a number

---
 src/server/conf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/conf.c b/src/server/conf.c
index 9e4c6f8..3e98d32 100644
--- a/src/server/conf.c
+++ b/src/server/conf.c
@@ -340,7 +340,7 @@ validate_unsigned_float_cb(cfg_t * restrict cfg, cfg_opt_t * restrict opt)
 {
 	double value = cfg_opt_getnfloat(opt, cfg_opt_size(opt) - 1);
 
-	if (value < 0.0) {
+	if (!(value >= 0.0)) { /* Also catch NaN. */
 		cfg_error(cfg, "`%s' must be a positive value", opt->name);
 		return -1; /* Abort. */
 	}
-- 
2.43.0


From 2df22ebd98371c10da833ef31942b11bbe07883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:54 +0000
Subject: [PATCH 27/32] fix: remove the PID file if atexit(3) fails

---
 src/server/nsca-ng.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index 5aeefef..9c1db0e 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -185,8 +185,10 @@ main(int argc, char **argv)
 			else
 				die("Cannot create %s: %m", pid_file);
 		}
-		if (atexit(remove_pidfile) != 0)
+		if (atexit(remove_pidfile) != 0) {
+			remove_pidfile();
 			die("Cannot register function to be called on exit");
+		}
 	}
 
 	server = server_start(
-- 
2.43.0


From 4a9097529564c1b380f18a16873cd75ce726a2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:06 +0000
Subject: [PATCH 28/32] fix: wipe the default password as well

---
 src/server/nsca-ng.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index 9c1db0e..b3294d0 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -86,6 +86,7 @@ static void close_descriptors(void);
 static void drop_privileges(const char *, const char *);
 static void remove_pidfile(void);
 static void forget_config(void);
+static void forget_password(cfg_t *);
 static void stop_keep_alive(void);
 static void notify_systemd(void);
 static void keep_alive_cb(EV_P_ ev_timer *, int);
@@ -387,21 +388,26 @@ forget_config(void)
 	if (cfg != NULL) {
 		unsigned int i, n_auth_blocks = cfg_size(cfg, "authorize");
 
-		for (i = 0; i < n_auth_blocks; i++) {
-			cfg_t *auth = cfg_getnsec(cfg, "authorize", i);
+		for (i = 0; i < n_auth_blocks; i++)
+			forget_password(cfg_getnsec(cfg, "authorize", i));
 
-			if (cfg_size(auth, "password") > 0) {
-				char *password = cfg_getstr(auth, "password");
-
-				(void)memset(password, 0, strlen(password));
-			}
-		}
+		forget_password(cfg); /* The default for the above. */
 		cfg_free(cfg);
 		cfg = NULL;
 		pid_file = NULL; /* This pointed into the configuration. */
 	}
 }
 
+static void
+forget_password(cfg_t *section)
+{
+	if (cfg_size(section, "password") > 0) {
+		char *password = cfg_getstr(section, "password");
+
+		(void)memset(password, 0, strlen(password));
+	}
+}
+
 static void
 stop_keep_alive(void)
 {
-- 
2.43.0


From f369aa4099a77e8df7bc41fb300f0f0b57ede16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 29/32] fix: let the modules wait for their socket, whatever
 its number

select(2) was told to look at descriptor 0 only, so it always slept, and
FD_SET() overran the set if the process had more than FD_SETSIZE descriptors.
---
 perl/client.c   | 40 +++++++++++++++-------------------------
 python/client.c | 40 +++++++++++++++-------------------------
 2 files changed, 30 insertions(+), 50 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index a1b914b..3f9d187 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -28,6 +28,7 @@
 #include <openssl/ssl.h>
 #include <openssl/err.h>
 #include <errno.h>
+#include <poll.h>
 #include <string.h>
 #include <time.h>
 
@@ -153,16 +154,22 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
+/* Wait (for up to 100ms) until the last TLS operation can be retried. */
+static void
+nscang_client_wait(nscang_client_t *c)
+{
+	struct pollfd pfd;
+
+	pfd.fd = BIO_get_fd(c->bio, NULL);
+	pfd.events = SSL_want_read(c->ssl) ? POLLIN : POLLOUT;
+	poll(&pfd, 1, 100);
+}
+
 int
 nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -180,9 +187,7 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		nscang_client_wait(c);
 	}
 }
 
@@ -191,14 +196,9 @@ nscang_client_response(nscang_client_t *c, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
 	char buf[1024] = "";
 	int was_read = 0;
 	char *ptr = buf;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -232,9 +232,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, &fdset, NULL, NULL, &tv);
+		nscang_client_wait(c);
 	}
 
 	if (strncmp(buf, "MOIN", 4) == 0) {
@@ -274,19 +272,11 @@ nscang_client_response(nscang_client_t *c, int timeout)
 void
 nscang_client_disconnect(nscang_client_t *c)
 {
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
-
 	if (c->state == NSCANG_STATE_MOIN)
 		nscang_client_send_quit(c);
 
 	if ((SSL_shutdown(c->ssl) == -1) && BIO_should_retry(c->bio)) {
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		nscang_client_wait(c);
 		SSL_shutdown(c->ssl);
 	}
 
diff --git a/python/client.c b/python/client.c
index 70dc8e6..39ce6d3 100644
--- a/python/client.c
+++ b/python/client.c
@@ -27,6 +27,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <poll.h>
 #include <string.h>
 #include <time.h>
 #include <pthread.h>
@@ -190,16 +191,22 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
+/* Wait (for up to 100ms) until the last TLS operation can be retried. */
+static void
+nscang_client_wait(nscang_client_t *c)
+{
+	struct pollfd pfd;
+
+	pfd.fd = BIO_get_fd(c->bio, NULL);
+	pfd.events = SSL_want_read(c->ssl) ? POLLIN : POLLOUT;
+	poll(&pfd, 1, 100);
+}
+
 int
 nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -217,9 +224,7 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		nscang_client_wait(c);
 	}
 }
 
@@ -228,14 +233,9 @@ nscang_client_response(nscang_client_t *c, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
 	char buf[1024] = "";
 	int was_read = 0;
 	char *ptr = buf;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -269,9 +269,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, &fdset, NULL, NULL, &tv);
+		nscang_client_wait(c);
 	}
 
 	if (strncmp(buf, "MOIN", 4) == 0) {
@@ -311,19 +309,11 @@ nscang_client_response(nscang_client_t *c, int timeout)
 void
 nscang_client_disconnect(nscang_client_t *c)
 {
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
-
 	if (c->state == NSCANG_STATE_MOIN)
 		nscang_client_send_quit(c);
 
 	if ((SSL_shutdown(c->ssl) == -1) && BIO_should_retry(c->bio)) {
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		nscang_client_wait(c);
 		SSL_shutdown(c->ssl);
 	}
 
-- 
2.43.0


From fdf4950b6a16d4f9b44011a5b52a5027a309b4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:20 +0000
Subject: [PATCH 30/32] fix: disconnect after a Python submission failed

---
 python/nscang.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/python/nscang.c b/python/nscang.c
index 02fc6eb..73e2a1c 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -77,8 +77,12 @@ nscang_host_result(PyObject *self, PyObject *args, PyObject *kwds)
 		return Py_None;
 	}
 
-	PyErr_Format(PyExc_RuntimeError, "host_result: %s",
-	    nscang_client_errstr(client, errstr, sizeof(errstr)));
+	nscang_client_errstr(client, errstr, sizeof(errstr));
+
+	/* Don't mistake a late response for an answer to the next request. */
+	nscang_client_disconnect(client);
+
+	PyErr_Format(PyExc_RuntimeError, "host_result: %s", errstr);
 	return NULL;
 }
 
@@ -116,8 +120,12 @@ nscang_svc_result(PyObject *self, PyObject *args, PyObject *kwds)
 		return Py_None;
 	}
 
-	PyErr_Format(PyExc_RuntimeError, "svc_result: %s",
-	    nscang_client_errstr(client, errstr, sizeof(errstr)));
+	nscang_client_errstr(client, errstr, sizeof(errstr));
+
+	/* Don't mistake a late response for an answer to the next request. */
+	nscang_client_disconnect(client);
+
+	PyErr_Format(PyExc_RuntimeError, "svc_result: %s", errstr);
 	return NULL;
 }
 
-- 
2.43.0


From 408db6e0529a9015a25e82521a5ac72d7dbb5816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:20 +0000
Subject: [PATCH 31/32] fix: don't format a null pointer if OpenSSL names no
 error

---
 python/client.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/client.c b/python/client.c
index 39ce6d3..66b4355 100644
--- a/python/client.c
+++ b/python/client.c
@@ -428,6 +428,14 @@ nscang_client_send_quit(nscang_client_t *c)
 	return 1;
 }
 
+static const char *
+nscang_client_reason(unsigned long error)
+{
+	const char *reason = ERR_reason_error_string(error);
+
+	return reason != NULL ? reason : "unknown error";
+}
+
 char *
 nscang_client_errstr(nscang_client_t *c, char *buf, int buf_size)
 {
@@ -446,8 +454,8 @@ nscang_client_errstr(nscang_client_t *c, char *buf, int buf_size)
 		break;
 	case NSCANG_ERROR_SSL:
 		snprintf(buf, buf_size, "SSL error - %s - %s",
-		    ERR_reason_error_string(ERR_peek_last_error()),
-		    ERR_reason_error_string(ERR_peek_error()));
+		    nscang_client_reason(ERR_peek_last_error()),
+		    nscang_client_reason(ERR_peek_error()));
 		break;
 	case NSCANG_ERROR_MALLOC:
 		strncpy(buf, "Can't allocate memory", buf_size);
-- 
2.43.0


From 3f16df6ab3d75c6816b0a9b52b9a788fd92dcdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:13 +0000
Subject: [PATCH 32/32] fix: free the Perl client object if it can't be
 initialized

---
 perl/Client.xs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/perl/Client.xs b/perl/Client.xs
index 2d992d3..9184b65 100644
--- a/perl/Client.xs
+++ b/perl/Client.xs
@@ -57,19 +57,17 @@ static int init_object(
    return 0;
 }
 
-static void init_client(nscang_object_t *o)
+static int init_client(nscang_object_t *o, char *errstr, int errstr_size)
 {
 
    // Initialize the client library
    if(!nscang_client_init(&o->client, o->host, o->port, o->ciphers, o->identity, o->psk)) {
-      char errstr[1024];
-
+      nscang_client_errstr(&o->client, errstr, errstr_size);
       nscang_client_free(&o->client);
-      croak("nscang_client_init: %s",
-            nscang_client_errstr(&o->client, errstr, sizeof(errstr))
-           );
+      return 1;
    }
    o->client_initialized = 1;
+   return 0;
 }
 
 static void free_object(nscang_object_t *o) {
@@ -102,6 +100,8 @@ _new(class, host, port, identity, psk, ciphers, node_name, svc_description, time
    int timeout
 
    CODE:
+      char errstr[1024];
+
       // Alloc new object
       Newxz(RETVAL, 1, nscang_object_t);
       if(!RETVAL)
@@ -114,10 +114,15 @@ _new(class, host, port, identity, psk, ciphers, node_name, svc_description, time
                SV_OR_NULL(svc_description), timeout)
         ) {
          free_object(RETVAL);
+         Safefree(RETVAL);
          croak("no memory for object");
       }
 
-      init_client(RETVAL);
+      if(init_client(RETVAL, errstr, sizeof(errstr))) {
+         free_object(RETVAL);
+         Safefree(RETVAL);
+         croak("nscang_client_init: %s", errstr);
+      }
    OUTPUT:
       RETVAL
 
@@ -146,8 +151,9 @@ _result(self, is_host_result, node_name, svc_description, return_code, plugin_ou
    char errstr[1024];
    nscang_client_t *client = &self->client;
 
-   if(!self->client_initialized)
-      init_client(self);
+   if(!self->client_initialized
+         && init_client(self, errstr, sizeof(errstr)))
+      croak("nscang_client_init: %s", errstr);
 
    if(SvOK(node_name))
       cnode_name = SvPV_nolen(node_name);
@@ -197,8 +203,9 @@ command(self, command)
    char *ccommand;
    nscang_client_t *client = &self->client;
 
-   if(!self->client_initialized)
-      init_client(self);
+   if(!self->client_initialized
+         && init_client(self, errstr, sizeof(errstr)))
+      croak("nscang_client_init: %s", errstr);
 
    if(SvOK(command)) {
       ccommand = SvPV_nolen(command);
-- 
2.43.0

