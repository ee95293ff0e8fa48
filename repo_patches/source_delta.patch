From 1f3443f823e23c823dfabf44bd3f58e5eca3edf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 01/38] fix: advance the buffer when a send is only partially
 accepted

conn_send and conn_send_to re-sent the start of the buffer after a short
write, corrupting the stream.
---
 src/conn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index c6cb978..bd6db56 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -596,7 +596,6 @@ int conn_send(struct conn_handle *conn, const uint8_t *buff, size_t buff_len)
 
 	if (priv->fd != INVALID_SOCKET) {
 		while (buff_len > 0) {
-			/*! @TODO Bug? buff isn't changed */
 			ret = send(priv->fd, (const char *)buff, (socklen_t)buff_len,
 				   MSG_NOSIGNAL);
 
@@ -617,6 +616,7 @@ int conn_send(struct conn_handle *conn, const uint8_t *buff, size_t buff_len)
 			}
 
 			buff_len -= ret;
+			buff += ret;
 		}
 
 		ret = 0;
@@ -650,7 +650,6 @@ int conn_send_to(struct conn_handle *conn, const uint8_t *buff,
 
 	if (priv->fd != INVALID_SOCKET) {
 		while (buff_len > 0) {
-			/*! @TODO Bug? buff isn't changed */
 			ret = sendto(priv->fd, (const char *)buff,
 				     (socklen_t)buff_len, MSG_NOSIGNAL,
 				     (struct sockaddr *)&saddr,
@@ -672,6 +671,7 @@ int conn_send_to(struct conn_handle *conn, const uint8_t *buff,
 			}
 
 			buff_len -= ret;
+			buff += ret;
 		}
 
 		ret = 0;
-- 
2.43.0


From 32825368d9d6a46b5634314e3c652aa344c45d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 02/38] fix: skip empty datagrams instead of treating them as a
 closed socket

A zero-length UDP datagram from anyone made conn_recv_any report EPIPE,
which silently ended the forwarding of that channel.
---
 src/conn.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index bd6db56..00b5c3b 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -546,8 +546,6 @@ int conn_recv_any(struct conn_handle *conn, uint8_t *buff, size_t buff_len,
 	struct conn_priv *priv = conn->priv;
 	int ret;
 
-	priv->remote_addr_len = sizeof(priv->remote_addr);
-
 	mutex_lock_shared(&priv->mutex);
 
 	if (priv->fd == INVALID_SOCKET) {
@@ -556,9 +554,15 @@ int conn_recv_any(struct conn_handle *conn, uint8_t *buff, size_t buff_len,
 		goto conn_recv_any_exit;
 	}
 
-	ret = recvfrom(priv->fd, (char *)buff, (socklen_t)buff_len, 0,
-		       (struct sockaddr *)&priv->remote_addr,
-		       &priv->remote_addr_len);
+	/* An empty datagram has a sender, the end of the socket does not */
+	do {
+		priv->remote_addr_len = sizeof(priv->remote_addr);
+
+		ret = recvfrom(priv->fd, (char *)buff, (socklen_t)buff_len, 0,
+			       (struct sockaddr *)&priv->remote_addr,
+			       &priv->remote_addr_len);
+	} while (conn->type == CONN_TYPE_UDP && ret == 0 &&
+		 priv->remote_addr_len > 0);
 
 	if (ret == 0) {
 		ret = -EPIPE;
-- 
2.43.0


From 79cd0797a290e63990f2737bce433fd3a086edd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 03/38] fix: convert the remote port to host byte order before
 printing it

---
 src/conn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 00b5c3b..58e9b16 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -809,7 +809,7 @@ void conn_get_remote_addr(const struct conn_handle *conn, char dest[54])
 		inet_ntop(addr->sin_family, &addr->sin_addr.s_addr, dest, 46);
 		dest += strlen(dest);
 		dest[0] = ':';
-		conn_port_to_str(addr->sin_port, dest + 1);
+		conn_port_to_str(ntohs(addr->sin_port), dest + 1);
 		break;
 	case AF_INET6:
 		dest[0] = '[';
@@ -818,7 +818,7 @@ void conn_get_remote_addr(const struct conn_handle *conn, char dest[54])
 		dest += strlen(dest);
 		dest[0] = ']';
 		dest[1] = ':';
-		conn_port_to_str(addr6->sin6_port, dest + 2);
+		conn_port_to_str(ntohs(addr6->sin6_port), dest + 2);
 		break;
 	default:
 		strcpy(dest, "(unknown)");
-- 
2.43.0


From 1fa007577e041763092a5d6715aa4ce4cd36a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 04/38] fix: apply the receive timeout to the socket that is
 received from

For an accepted connection that is the accepted descriptor, which
conn_set_timeout ignored.
---
 src/conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 58e9b16..30e840d 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -704,7 +704,7 @@ int conn_set_timeout(struct conn_handle *conn, uint32_t msec)
 #endif
 
 	mutex_lock_shared(&priv->mutex);
-	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_RCVTIMEO,
+	ret = setsockopt(priv->fd, SOL_SOCKET, SO_RCVTIMEO,
 			 (const void *)&val, sizeof(val));
 	if (ret == SOCKET_ERROR)
 		ret = SOCK_ERRNO;
-- 
2.43.0


From 58aa01c545325bea13ae00e944320de4de79e2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 05/38] fix: make room for the registration name in the
 registration suffix

The buffer first holds the name, the public address and the salt that are
hashed, so a longer name overflowed the heap.
---
 src/registration.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/registration.c b/src/registration.c
index df6d7ce..fcd2029 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -329,8 +329,8 @@ int registration_service_start(struct registration_service_handle *rs,
 
 	if (priv->reg_suffix != NULL)
 		free((void *)priv->reg_suffix);
-	reg_suffix = malloc(strlen(public_addr) + (2 * DIGEST_LEN) +
-			    sizeof(protocol_version) + 18);
+	reg_suffix = malloc(strlen(priv->reg_name) + strlen(public_addr) +
+			    (2 * DIGEST_LEN) + sizeof(protocol_version) + 18);
 	if (reg_suffix == NULL) {
 		ret = -ENOMEM;
 		goto registration_service_start_end;
-- 
2.43.0


From 3deaf207fe364614e47586204ee78c68c0a4a85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 06/38] fix: do not crash when registering without a comment

RegistrationComment is optional.
---
 src/registration.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/registration.c b/src/registration.c
index fcd2029..9bf7175 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -325,7 +325,8 @@ int registration_service_start(struct registration_service_handle *rs,
 	priv->public = strcmp(conf->password, "PUBLIC") == 0 ? 'Y' : 'N';
 
 	priv->reg_name = conf->reg_name;
-	priv->reg_comment = conf->reg_comment;
+	priv->reg_comment = conf->reg_comment == NULL ?
+			    "" : conf->reg_comment;
 
 	if (priv->reg_suffix != NULL)
 		free((void *)priv->reg_suffix);
-- 
2.43.0


From 97e97e2a1bcaa8be829fdc61960396d17660e02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 07/38] fix: bound the wait for the registrar's response

A registrar which accepts the connection but never answers stalled every
further report and made proxy_close wait forever.
---
 src/registration.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/registration.c b/src/registration.c
index 9bf7175..eb5fccc 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -65,6 +65,9 @@
 /*! Update (at least) every 10 minutes */
 #define UPDATE_INTERVAL 600000
 
+/*! Wait (at most) 5 seconds for a response from the registrar */
+#define RESPONSE_TIMEOUT 5000
+
 /*!
  * @brief Possible statuses of a proxy server to report to registrar
  */
@@ -227,6 +230,11 @@ static int send_report(struct registration_service_handle *rs,
 	if (ret < 0)
 		goto registration_update_exit;
 
+	/* Never let an unresponsive registrar block the service */
+	ret = conn_set_timeout(&conn, RESPONSE_TIMEOUT);
+	if (ret < 0)
+		goto registration_update_exit;
+
 	ret = conn_send(&conn, (uint8_t *)message_header, header_length);
 	if (ret < 0)
 		goto registration_update_exit;
-- 
2.43.0


From 71ff8c4ebc2ca5d3d127a600d6b178adc89c864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 08/38] fix: do not free the registration suffix twice after a
 failed start

---
 src/registration.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/registration.c b/src/registration.c
index eb5fccc..26a910f 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -338,6 +338,7 @@ int registration_service_start(struct registration_service_handle *rs,
 
 	if (priv->reg_suffix != NULL)
 		free((void *)priv->reg_suffix);
+	priv->reg_suffix = NULL;
 	reg_suffix = malloc(strlen(priv->reg_name) + strlen(public_addr) +
 			    (2 * DIGEST_LEN) + sizeof(protocol_version) + 18);
 	if (reg_suffix == NULL) {
-- 
2.43.0


From c0c83a564fdb91673f7cb70efe2b5bc7aa17c80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 09/38] fix: release the previous log medium when it is
 deselected

The medium to release was read after it had been overwritten, so the log
file or syslog connection was never closed.
---
 src/log.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/log.c b/src/log.c
index 1616307..0de9120 100644
--- a/src/log.c
+++ b/src/log.c
@@ -203,13 +203,14 @@ int log_select_medium(struct log_handle *log, enum LOG_MEDIUM medium,
 		      const char *target)
 {
 	struct log_priv *priv = log->priv;
+	const enum LOG_MEDIUM old_medium = log->medium;
 	int ret = 0;
 
 	/* Open the new medium */
 	switch (medium) {
 	case LOG_MEDIUM_NONE:
 		log->medium = LOG_MEDIUM_NONE;
-		switch (log->medium) {
+		switch (old_medium) {
 		case LOG_MEDIUM_FILE:
 			if (priv->medium_file.fp != NULL) {
 				fclose(priv->medium_file.fp);
@@ -227,12 +228,14 @@ int log_select_medium(struct log_handle *log, enum LOG_MEDIUM medium,
 				priv->medium_eventlog.handle = NULL;
 			}
 
+			break;
+		default:
 			break;
 		}
 		break;
 	case LOG_MEDIUM_STDOUT:
 		log->medium = LOG_MEDIUM_STDOUT;
-		switch (log->medium) {
+		switch (old_medium) {
 		case LOG_MEDIUM_FILE:
 			if (priv->medium_file.fp != NULL) {
 				fclose(priv->medium_file.fp);
-- 
2.43.0


From 8c4d7a7eedd11af86fecb3bd186c9a2877e384e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 10/38] fix: terminate the string written by digest_to_str

The declared result has room for it and callers treat it as a string.
---
 src/digest.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/digest.c b/src/digest.c
index 978ee70..c73933c 100644
--- a/src/digest.c
+++ b/src/digest.c
@@ -137,6 +137,8 @@ void digest_to_str(const uint8_t md5[DIGEST_LEN],
 
 	for (i = 0; i < DIGEST_LEN; i++, result += 2)
 		digest_to_hex8_u(md5[i], result);
+
+	*result = '\0';
 }
 
 static uint8_t hex4_to_digest(char data)
-- 
2.43.0


From ba1bf3aaa21b222ce66398374271044fa3b6018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 11/38] fix: regain exclusive ownership when a condition wait
 ends

The wait returned while shared holders which arrived in the meantime were
still inside, so the waiter was not exclusive as it was before the wait.
---
 src/mutex_posix.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/mutex_posix.c b/src/mutex_posix.c
index 3469e69..db0c749 100644
--- a/src/mutex_posix.c
+++ b/src/mutex_posix.c
@@ -74,6 +74,19 @@ struct condvar_priv {
 	pthread_cond_t cond;
 };
 
+/*!
+ * @brief Waits for shared holders which arrived during a wait to finish
+ *
+ * @param[in,out] mpriv Private data of the mutex, which is locked
+ */
+static void condvar_wait_shared(struct mutex_priv *mpriv)
+{
+	while (mpriv->readers > 0) {
+		if (pthread_cond_wait(&mpriv->cond, &mpriv->lock) != 0)
+			break;
+	}
+}
+
 int mutex_init(struct mutex_handle *mutex)
 {
 	struct mutex_priv *priv = mutex->priv;
@@ -231,8 +244,12 @@ int condvar_wait(struct condvar_handle *condvar, struct mutex_handle *mutex)
 {
 	struct condvar_priv *priv = condvar->priv;
 	struct mutex_priv *mpriv = mutex->priv;
+	int ret;
 
-	return -pthread_cond_wait(&priv->cond, &mpriv->lock);
+	ret = pthread_cond_wait(&priv->cond, &mpriv->lock);
+	condvar_wait_shared(mpriv);
+
+	return -ret;
 }
 
 int condvar_wait_time(struct condvar_handle *condvar,
@@ -249,6 +266,8 @@ int condvar_wait_time(struct condvar_handle *condvar,
 	abstime.tv_nsec %= 1000000000;
 
 	ret = pthread_cond_timedwait(&priv->cond, &mpriv->lock, &abstime);
+	condvar_wait_shared(mpriv);
+
 	return ret == ETIMEDOUT ? 1 : -ret;
 }
 
-- 
2.43.0


From ed6010d28d3e499cac1784adac559b0fb17e0c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 12/38] fix: refuse to open a proxy which has no password

The configuration documents Password as required, but leaving it out was
accepted and crashed the proxy when the first client connected.
---
 src/proxy.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 64e4c53..8432e70 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -673,6 +673,13 @@ int proxy_open(struct proxy_handle *ph)
 	if (ret < 0)
 		goto proxy_open_exit;
 
+	if (ph->conf.password == NULL) {
+		proxy_log(ph, LOG_LEVEL_FATAL,
+			  "A password must be specified\n");
+		ret = -EINVAL;
+		goto proxy_open_exit;
+	}
+
 	if (ph->conf.calls_allowed != NULL) {
 		if (priv->re_calls_allowed == NULL) {
 			priv->re_calls_allowed = calloc(1,
-- 
2.43.0


From 8e0a968b21c2eaa9a620b87fb94bc77e7c32d5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 13/38] fix: finish with the previous TCP connection before
 opening another

A TCP_OPEN while a connection was open (or while its forwarder had not
returned yet) leaked the old socket, and the old forwarder could close the
new connection.
---
 src/proxy_conn.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 8476133..36310a7 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -725,6 +725,10 @@ static int process_tcp_open_message(struct proxy_conn_handle *pc,
 		return -EINVAL;
 	}
 
+	/* Finish with any previous connection */
+	conn_close(&priv->conn_tcp);
+	worker_wait_idle(&priv->worker_tcp);
+
 	/* Attempt to connect */
 	ret = conn_connect(&priv->conn_tcp, (const char *)addr, "5200");
 	if (ret < 0) {
-- 
2.43.0


From f6fd216b9aa30088e26dd9b3bf37a82b1559c34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 14/38] fix: send TCP_STATUS before anything received from the
 new connection

The forwarder was started first, so TCP_DATA and even TCP_CLOSE could
overtake the status.
---
 src/proxy_conn.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 36310a7..a287dd0 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -735,7 +735,12 @@ static int process_tcp_open_message(struct proxy_conn_handle *pc,
 		proxy_log(pc->ph, LOG_LEVEL_WARN,
 			  "Failed to open TCP connection for client '%s' (%d): %s\n",
 			  priv->callsign, -ret, strerror(-ret));
-	} else {
+	}
+
+	/* Nothing may be forwarded before the status has been sent */
+	mutex_lock(&priv->mutex_client_send);
+
+	if (ret >= 0) {
 		/* Connection succeeded - signal the thread */
 		ret = worker_wake(&priv->worker_tcp);
 		if (ret < 0)
@@ -754,8 +759,6 @@ static int process_tcp_open_message(struct proxy_conn_handle *pc,
 		  "Sending TCP_STATUS message (%d) to client '%s'\n",
 		  ret, priv->callsign);
 
-	mutex_lock(&priv->mutex_client_send);
-
 	ret = conn_send(priv->conn_client, status_buf,
 			sizeof(*status_msg) + status_msg->size);
 
-- 
2.43.0


From c915f5986288d5e5d10e2d9fd579738722bf6e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 15/38] fix: send TCP_CLOSE only after all of the data of that
 connection

---
 src/proxy_conn.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index a287dd0..4936807 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -696,8 +696,11 @@ static int process_tcp_data_message(struct proxy_conn_handle *pc,
 		}
 	}
 
-	if (tcp_ret != 0)
+	if (tcp_ret != 0) {
+		/* Anything already received must be forwarded first */
+		worker_wait_idle(&priv->worker_tcp);
 		send_tcp_close(pc);
+	}
 
 	return 0;
 }
-- 
2.43.0


From dda8d8064ddd62e5c1d37ed912c48b46f4163254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 16/38] fix: do not offer a slot for reconnection before it is
 in the pool

Once finished, the slot could be found through its callsign by another
worker and was then unlinked from the pool while not part of it.
---
 src/proxy.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index 8432e70..d49ee14 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -423,11 +423,10 @@ static void proxy_worker_func(struct worker_handle *wh)
 	proxy_log(pw->ph, LOG_LEVEL_INFO,
 		  "Disconnected from client '%s'.\n", pw->callsign);
 
-	proxy_conn_finish(pc);
-
 	/* Put the slot back in the pool */
-	pc->next = NULL;
 	mutex_lock(&priv->idle_clients_mutex);
+	proxy_conn_finish(pc);
+	pc->next = NULL;
 	pc->prev_ptr = priv->idle_clients_tail_ptr;
 	*priv->idle_clients_tail_ptr = pc;
 	priv->idle_clients_tail_ptr = &pc->next;
-- 
2.43.0


From e8e40cbeb69f776132bff49b3e2bac65bf714564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 17/38] fix: update the registration after a client fails to
 authorize

A report sent while that client held a slot stayed in effect until some
other client came or went.
---
 src/proxy.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index d49ee14..e12f7a5 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -356,6 +356,8 @@ static void proxy_worker_func(struct worker_handle *wh)
 		priv->idle_workers_head = pw;
 		mutex_unlock(&priv->idle_workers_mutex);
 
+		proxy_update_registration(pw->ph);
+
 		return;
 	}
 
-- 
2.43.0


From 2ade7f6550f0eed245050c90002fdda113d6f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 18/38] fix: report the status when a proxy is started again

Updates are ignored until the service is started, so after a stop the
proxy was not registered until a client connected.
---
 src/proxy.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index e12f7a5..692fe91 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1072,7 +1072,6 @@ int proxy_start(struct proxy_handle *ph)
 	priv->usable_clients = priv->num_clients;
 	mutex_unlock(&priv->usable_clients_mutex);
 
-	proxy_update_registration(ph);
 	ret = registration_service_start(&priv->reg_service, &ph->conf);
 	if (ret < 0) {
 		proxy_log(ph, LOG_LEVEL_FATAL,
@@ -1081,6 +1080,8 @@ int proxy_start(struct proxy_handle *ph)
 		goto proxy_start_exit;
 	}
 
+	proxy_update_registration(ph);
+
 	return 0;
 
 proxy_start_exit:
-- 
2.43.0


From fdd072bdf0b1fa93171742c433c8e802064aa734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 19/38] fix: do not let an older slot count overwrite a newer
 one

Between counting and handing over the count, another thread could report
a change which was then lost.
---
 src/proxy.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index 692fe91..97311cc 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1107,12 +1107,10 @@ void proxy_update_registration(struct proxy_handle *ph)
 	mutex_lock_shared(&priv->usable_clients_mutex);
 	slots_total = priv->usable_clients;
 	slots_used = priv->num_clients;
-	mutex_unlock_shared(&priv->usable_clients_mutex);
 
 	mutex_lock_shared(&priv->idle_workers_mutex);
 	for (pw = priv->idle_workers_head; pw != NULL; pw = pw->next)
 		slots_used--;
-	mutex_unlock_shared(&priv->idle_workers_mutex);
 
 	proxy_log(ph, LOG_LEVEL_DEBUG,
 		  "Sending update to registrar (%d/%d)\n",
@@ -1120,4 +1118,7 @@ void proxy_update_registration(struct proxy_handle *ph)
 
 	registration_service_update(&priv->reg_service, slots_used,
 				    slots_total);
+
+	mutex_unlock_shared(&priv->idle_workers_mutex);
+	mutex_unlock_shared(&priv->usable_clients_mutex);
 }
-- 
2.43.0


From 5d0e3db1074580ffdac2f2f92166c8522d86826d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 20/38] fix: clear the list of idle workers after the workers
 have stopped

A worker adds itself to the list when its client is dropped, which left
the list pointing at freed memory after proxy_close.
---
 src/proxy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index 97311cc..e5c1623 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -869,9 +869,9 @@ void proxy_close(struct proxy_handle *ph)
 
 	proxy_log(ph, LOG_LEVEL_DEBUG, "Closing client connections...\n");
 
-	priv->idle_workers_head = NULL;
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_worker_free(&priv->client_workers[i]);
+	priv->idle_workers_head = NULL;
 
 	memset(priv->clients_by_call, 0x0, sizeof(priv->clients_by_call));
 	priv->idle_clients_head = NULL;
-- 
2.43.0


From dcfd32eb64ab2788c59a758873f0ff566f612c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 21/38] fix: also drop clients which have not been authorized

proxy_close waited for them forever if they stayed silent.
---
 src/proxy.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index e5c1623..57e6364 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -903,6 +903,16 @@ void proxy_drop(struct proxy_handle *ph)
 
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_conn_drop(&priv->clients[i]);
+
+	/* Clients which are not authorized yet do not have a slot */
+	for (i = 0; i < priv->num_clients; i++) {
+		struct proxy_worker *pw = &priv->client_workers[i];
+
+		mutex_lock_shared(&pw->mutex);
+		if (pw->conn_client != NULL)
+			conn_drop(pw->conn_client);
+		mutex_unlock_shared(&pw->mutex);
+	}
 }
 
 void proxy_shutdown(struct proxy_handle *ph)
-- 
2.43.0


From 084494e3b628a49cd87f95fe79e8ed163b3bde89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 22/38] fix: interrupt a pending TCP connection when a client
 is dropped

proxy_close otherwise waited until connecting to (or sending to) an
unresponsive host timed out.
---
 src/proxy_conn.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 4936807..d639e81 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -863,9 +863,13 @@ void proxy_conn_drop(struct proxy_conn_handle *pc)
 
 	mutex_lock_shared(&priv->mutex_client);
 
-	if (priv->conn_client != NULL)
+	if (priv->conn_client != NULL) {
 		conn_drop(priv->conn_client);
 
+		/* The client may be waiting for the remote host */
+		conn_shutdown(&priv->conn_tcp);
+	}
+
 	mutex_unlock_shared(&priv->mutex_client);
 }
 
-- 
2.43.0


From ddcd8279a3ecd81512fc10bcbc0e1e01c6b7c3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 23/38] fix: replace the additional external addresses when
 they are given again

The new addresses were added to the old count, which made slots without
an address, and the old ones leaked.
---
 src/conf.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index e6058ba..aeb9893 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -378,15 +378,18 @@ static int conf_parse_pair(const char *key, size_t key_len,
 		if (strncmp(key, "AdditionalExternalBindAddresses", key_len) == 0) {
 			size_t i, j;
 
-			if (conf->bind_addr_ext_add != NULL)
-				free(conf->bind_addr_ext_add);
+			if (conf->bind_addr_ext_add != NULL) {
+				for (i = 0; i < conf->bind_addr_ext_add_len; i++)
+					free(conf->bind_addr_ext_add[i]);
 
-			if (val_len == 0) {
+				free(conf->bind_addr_ext_add);
 				conf->bind_addr_ext_add = NULL;
 				conf->bind_addr_ext_add_len = 0;
-				break;
 			}
 
+			if (val_len == 0)
+				break;
+
 			for (i = 1; i < val_len; i++)
 				if (val[i] == ',')
 					conf->bind_addr_ext_add_len++;
-- 
2.43.0


From 3e81cf2c243fa2c249e3e854ff02beb13d71af7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 24/38] fix: reject numbers in the configuration which are out
 of range

A port such as 73636 or -57436 was silently taken as 8100.
---
 src/conf.c | 51 ++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index aeb9893..72f624d 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -64,6 +64,19 @@
 static int conf_parse_line(const char *line, struct proxy_conf *conf,
 			   struct log_handle *log);
 
+/*!
+ * @brief Parse an unsigned decimal number
+ *
+ * @param[in] val Number to parse
+ * @param[in] val_len Length of val in characters
+ * @param[in] max Largest number which is acceptable
+ * @param[out] result Resulting numeric value
+ *
+ * @returns 0 on success, negative ERRNO value on failure
+ */
+static int conf_parse_number(const char *val, size_t val_len,
+			     unsigned long max, unsigned long *result);
+
 /*!
  * @brief Parse a key/value pair into the configuration
  *
@@ -194,22 +207,52 @@ static int conf_parse_line(const char *line, struct proxy_conf *conf,
 	return conf_parse_pair(key, key_len, val, val_len, conf, log);
 }
 
+static int conf_parse_number(const char *val, size_t val_len,
+			     unsigned long max, unsigned long *result)
+{
+	unsigned long number = 0;
+	size_t i;
+
+	if (val_len == 0)
+		return -EINVAL;
+
+	for (i = 0; i < val_len; i++) {
+		unsigned long digit;
+
+		if (val[i] < '0' || val[i] > '9')
+			return -EINVAL;
+
+		digit = (unsigned long)(val[i] - '0');
+
+		if (number > (max - digit) / 10)
+			return -ERANGE;
+
+		number = number * 10 + digit;
+	}
+
+	*result = number;
+
+	return 0;
+}
+
 static int conf_parse_pair(const char *key, size_t key_len,
 			   const char *val, size_t val_len,
 			   struct proxy_conf *conf, struct log_handle *log)
 {
-	char dummy[2];
+	unsigned long number;
 
 	switch (key_len) {
 	case 4:
 		if (strncmp(key, "Port", key_len) == 0) {
-			if (sscanf(val, "%hu%1s", &conf->port, dummy) != 1) {
+			if (conf_parse_number(val, val_len, 65535, &number) < 0) {
 				log_printf(log, LOG_LEVEL_ERROR,
 					   "Invalid configuration value for 'Port': '%.*s'\n",
 					   (int)val_len, val);
 
 				return -EINVAL;
 			}
+
+			conf->port = (uint16_t)number;
 		}
 
 		break;
@@ -330,13 +373,15 @@ static int conf_parse_pair(const char *key, size_t key_len,
 		break;
 	case 17:
 		if (strncmp(key, "ConnectionTimeout", key_len) == 0) {
-			if (sscanf(val, "%u%1s", &conf->connection_timeout, dummy) != 1) {
+			if (conf_parse_number(val, val_len, 4294967295UL, &number) < 0) {
 				log_printf(log, LOG_LEVEL_ERROR,
 					   "Invalid configuration value for 'ConnectionTimeout': '%.*s'\n",
 					   (int)val_len, val);
 
 				return -EINVAL;
 			}
+
+			conf->connection_timeout = (uint32_t)number;
 		}
 
 		break;
-- 
2.43.0


From b8cc43bbbfd62383869439950715fc40826ca16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 25/38] fix: report when the configuration cannot be read
 completely

A read error (or a directory in place of the file) or a lack of memory was
taken as the end of the file.
---
 src/conf.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 72f624d..b247304 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -488,7 +488,7 @@ static int conf_parse_stream(FILE *stream, struct proxy_conf *conf,
 	size_t line_len = 0;
 	int ret = 0;
 
-	while (conf_readline(&line, &line_len, stream) > 0) {
+	while ((ret = conf_readline(&line, &line_len, stream)) > 0) {
 		ret = conf_parse_line(line, conf, log);
 
 		free(line);
@@ -500,7 +500,10 @@ static int conf_parse_stream(FILE *stream, struct proxy_conf *conf,
 
 	free(line);
 
-	return 0;
+	if (ret == 0 && ferror(stream))
+		ret = -EIO;
+
+	return ret;
 }
 
 int conf_init(struct proxy_conf *conf)
-- 
2.43.0


From 86b0589fd960d9452c1ea75415dc6c8d260ad4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 26/38] fix: report a failure to initialize a proxy connection

proxy_conn_init returned success after freeing everything.
---
 src/proxy_conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index d639e81..d82eabc 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -997,7 +997,7 @@ proxy_conn_init_exit:
 	free(pc->priv);
 	pc->priv = NULL;
 
-	return 0;
+	return ret;
 }
 
 int proxy_conn_in_use(struct proxy_conn_handle *pc)
-- 
2.43.0


From 2f28521347d1f9c1d132a86253ce6088edc5af6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 27/38] fix: leave nothing behind when opening a proxy fails

The number of clients, the lists of idle workers and slots and the denial
pattern kept referring to what had been freed.
---
 src/proxy.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index 57e6364..8421d61 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -660,8 +660,10 @@ int proxy_open(struct proxy_handle *ph)
 	priv->num_clients = 1 + ph->conf.bind_addr_ext_add_len;
 
 	priv->clients = calloc(priv->num_clients, sizeof(*priv->clients));
-	if (priv->clients == NULL)
-		return -ENOMEM;
+	if (priv->clients == NULL) {
+		ret = -ENOMEM;
+		goto proxy_open_exit;
+	}
 
 	priv->client_workers = calloc(priv->num_clients,
 				      sizeof(struct proxy_worker));
@@ -833,12 +835,22 @@ proxy_open_exit_late:
 		proxy_conn_free(&priv->clients[i]);
 
 proxy_open_exit:
+	priv->idle_workers_head = NULL;
+	priv->idle_clients_head = NULL;
+	priv->idle_clients_tail_ptr = NULL;
+
 	if (priv->re_calls_allowed != NULL) {
 		regex_free(priv->re_calls_allowed);
 		free(priv->re_calls_allowed);
 		priv->re_calls_allowed = NULL;
 	}
 
+	if (priv->re_calls_denied != NULL) {
+		regex_free(priv->re_calls_denied);
+		free(priv->re_calls_denied);
+		priv->re_calls_denied = NULL;
+	}
+
 	log_close(&priv->log);
 
 	free(priv->client_workers);
-- 
2.43.0


From cadca6b8ed40d2fdfe0bc95d8060f5dd9c361cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 28/38] fix: do not close a proxy which could not be
 initialized

proxy_init calls proxy_free when it fails, which used members that did
not exist yet.
---
 src/proxy.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index 8421d61..3abee59 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -608,7 +608,9 @@ void proxy_free(struct proxy_handle *ph)
 	if (ph->priv != NULL) {
 		struct proxy_priv *priv = ph->priv;
 
-		proxy_close(ph);
+		/* The mutex is the last thing to be initialized */
+		if (priv->idle_workers_mutex.priv != NULL)
+			proxy_close(ph);
 
 		/* Free idle_workers mutex */
 		mutex_free(&priv->idle_workers_mutex);
-- 
2.43.0


From 3a1c3c3278f834d8ee979af35cfa43cee56d5d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 29/38] fix: check for a lack of memory when computing a
 password response

---
 src/proxy.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 3abee59..e964dcc 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1047,6 +1047,9 @@ int get_password_response(uint32_t nonce, const char *password,
 	uint8_t *pass_with_nonce = malloc(pass_with_nonce_len);
 	char *iter = (char *)pass_with_nonce;
 
+	if (pass_with_nonce == NULL)
+		return -ENOMEM;
+
 	while (*password != '\0') {
 		if (*password >= 97 && *password <= 122)
 			*iter = *password - 32;
-- 
2.43.0


From 566074275bbb70339b5431039755f599f73aa853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 30/38] fix: keep a worker which could not accept a client
 available

---
 src/proxy.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index e964dcc..4311408 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1023,8 +1023,13 @@ int proxy_process(struct proxy_handle *ph)
 	}
 
 	ret = proxy_worker_accept(worker, conn);
-	if (ret < 0)
+	if (ret < 0) {
+		mutex_lock(&priv->idle_workers_mutex);
+		worker->next = priv->idle_workers_head;
+		priv->idle_workers_head = worker;
+		mutex_unlock(&priv->idle_workers_mutex);
 		goto conn_process_exit;
+	}
 
 	return 0;
 
-- 
2.43.0


From 8af0c82590b9e5fafebb9f272db0ab4a969c6029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 31/38] fix: consider a worker stopped when its thread could
 not be started

It was treated as running, so nothing tried to start it again and waking
it succeeded without effect.
---
 src/worker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.c b/src/worker.c
index 5ecf36d..a4f20b0 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -260,6 +260,8 @@ int worker_start(struct worker_handle *wh)
 	if (priv->state <= WORKER_STOPPED) {
 		priv->state = WORKER_STARTING;
 		ret = thread_start(&priv->thread);
+		if (ret < 0)
+			priv->state = WORKER_STOPPED;
 	}
 
 	mutex_unlock(&priv->mutex);
-- 
2.43.0


From 6554458794ca3547e877bad24bbcba1f907a5d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 32/38] fix: close the socket when listening on it fails

The descriptor was kept and overwritten by the next attempt.
---
 src/conn.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 30e840d..ca72e26 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -235,7 +235,6 @@ int conn_listen(struct conn_handle *conn)
 	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_REUSEADDR,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
 		goto conn_listen_free;
 	}
@@ -244,7 +243,6 @@ int conn_listen(struct conn_handle *conn)
 	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_NOSIGPIPE,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
 		goto conn_listen_free;
 	}
@@ -252,7 +250,6 @@ int conn_listen(struct conn_handle *conn)
 
 	ret = bind(priv->sock_fd, res->ai_addr, (socklen_t)res->ai_addrlen);
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
 		goto conn_listen_free;
 	}
@@ -260,7 +257,6 @@ int conn_listen(struct conn_handle *conn)
 	if (conn->type == CONN_TYPE_TCP) {
 		ret = listen(priv->sock_fd, 0);
 		if (ret == SOCKET_ERROR) {
-			/*! @TODO Close priv->sock_fd */
 			ret = SOCK_ERRNO;
 			goto conn_listen_free;
 		}
@@ -273,6 +269,11 @@ int conn_listen(struct conn_handle *conn)
 	mutex_unlock(&priv->mutex);
 
 conn_listen_free:
+	if (ret < 0 && priv->sock_fd != INVALID_SOCKET) {
+		closesocket(priv->sock_fd);
+		priv->sock_fd = INVALID_SOCKET;
+	}
+
 	freeaddrinfo(res);
 
 	return ret;
-- 
2.43.0


From 2eac7f1dd5d84612cae4e4699c792a3f850299c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 33/38] fix: always close the socket when connecting fails

It was kept when an option could not be set, and closing it must exclude
a concurrent conn_shutdown.
---
 src/conn.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index ca72e26..bdb9dcc 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -399,7 +399,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
-		goto conn_connect_free_early;
+		goto conn_connect_free;
 	}
 
 #ifdef __APPLE__
@@ -407,7 +407,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
-		goto conn_connect_free_early;
+		goto conn_connect_free;
 	}
 #endif
 
@@ -436,12 +436,16 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 	return 0;
 
 conn_connect_free:
+	mutex_lock(&priv->mutex);
+
 	shutdown(priv->sock_fd, SHUT_RDWR);
 
 	closesocket(priv->sock_fd);
 
 	priv->sock_fd = INVALID_SOCKET;
 
+	mutex_unlock(&priv->mutex);
+
 conn_connect_free_early:
 	if (res_remote != NULL)
 		freeaddrinfo(res_remote);
-- 
2.43.0


From de13342a09d671e4f1638a63f7d1fcfebe5d0bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 34/38] fix: keep the standard streams open when running
 detached

They were closed, so a client's connection became standard output and
received the log messages which are printed there.
---
 src/proxyd.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/proxyd.c b/src/proxyd.c
index bf83790..67c0088 100644
--- a/src/proxyd.c
+++ b/src/proxyd.c
@@ -54,6 +54,7 @@
 #  include <io.h>
 #  include <windows.h>
 #else
+#  include <fcntl.h>
 #  include <signal.h>
 #  include <sys/stat.h>
 #endif
@@ -278,6 +279,7 @@ int main(int argc, const char * const argv[])
 	if (!opts.foreground) {
 		pid_t pid;
 		pid_t sid;
+		int null_fd;
 
 		pid = fork();
 
@@ -332,9 +334,21 @@ int main(int argc, const char * const argv[])
 			goto proxyd_exit;
 		}
 
-		close(STDIN_FILENO);
-		close(STDOUT_FILENO);
-		close(STDERR_FILENO);
+		/* Sockets must never take the place of the standard streams */
+		null_fd = open("/dev/null", O_RDWR);
+		if (null_fd < 0) {
+			proxy_log(&ph, LOG_LEVEL_FATAL,
+				  "Failed to open /dev/null (%d): %s\n",
+				  errno, strerror(errno));
+			ret = errno;
+			goto proxyd_exit;
+		}
+
+		dup2(null_fd, STDIN_FILENO);
+		dup2(null_fd, STDOUT_FILENO);
+		dup2(null_fd, STDERR_FILENO);
+		if (null_fd > STDERR_FILENO)
+			close(null_fd);
 	} else
 #endif
 	{
-- 
2.43.0


From 855b053cf5bafdd246f616eb1f57121800e7c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 35/38] fix: shut down from the main thread instead of the
 signal handler

proxy_shutdown takes locks, so the process hung if the signal arrived while
the interrupted thread held one of them, and crashed if it arrived before
the proxy was initialized.
---
 src/proxyd.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/proxyd.c b/src/proxyd.c
index 67c0088..c7a626e 100644
--- a/src/proxyd.c
+++ b/src/proxyd.c
@@ -49,13 +49,13 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include <signal.h>
 #ifdef _WIN32
 #  include <conio.h>
 #  include <io.h>
 #  include <windows.h>
 #else
 #  include <fcntl.h>
-#  include <signal.h>
 #  include <sys/stat.h>
 #endif
 
@@ -110,7 +110,12 @@ struct proxy_opts {
 static struct proxy_handle ph;
 
 /*! Program termination indicator */
-static uint8_t sentinel;
+static volatile sig_atomic_t sentinel;
+
+#ifndef _WIN32
+/*! Set once the main thread has noticed a signal */
+static volatile sig_atomic_t interrupted;
+#endif
 
 #ifdef _WIN32
 /*!
@@ -182,18 +187,19 @@ static BOOL WINAPI graceful_shutdown(DWORD ctrl_type)
 	return FALSE;
 }
 #else
-/*! @TODO Make this async-signal-safe */
 static void graceful_shutdown(int signum, siginfo_t *info, void *ptr)
 {
-	proxy_log(&ph, LOG_LEVEL_INFO, "Caught signal\n");
 	(void)info;
 	(void)ptr;
 
 	if (signum == SIGTERM || signum == SIGINT)
 		sentinel = 1;
 
-	if (signum == SIGTERM || signum == SIGINT || signum == SIGUSR1)
-		proxy_shutdown(&ph);
+	/* The main thread does the work when it is interrupted while waiting.
+	 * Try again if it wasn't waiting yet.
+	 */
+	if (!interrupted)
+		alarm(1);
 }
 #endif
 
@@ -229,6 +235,7 @@ int main(int argc, const char * const argv[])
 	sigaction(SIGINT, &sigact, NULL);
 	sigaction(SIGTERM, &sigact, NULL);
 	sigaction(SIGUSR1, &sigact, NULL);
+	sigaction(SIGALRM, &sigact, NULL);
 #else
 	if (!SetConsoleCtrlHandler(graceful_shutdown, TRUE))
 		fprintf(stderr, "Failed to set signal handler (%d)\n",
@@ -407,6 +414,13 @@ int main(int argc, const char * const argv[])
 			case -EINTR:
 				ret = 0;
 
+#ifndef _WIN32
+				interrupted = 1;
+				proxy_log(&ph, LOG_LEVEL_INFO,
+					  "Caught signal\n");
+				proxy_shutdown(&ph);
+#endif
+
 				/*! @TODO Something better than a busy loop */
 				while (!sentinel) {
 #ifdef _WIN32
-- 
2.43.0


From 8652d57e2eae34354bb676ca9e2cf2f387dd6467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 36/38] fix: forget the count of additional addresses when
 their list cannot be allocated

The count was left behind without a list, so that the next load of a
configuration added to it and came out with addresses that were never
configured.
---
 src/conf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/conf.c b/src/conf.c
index b247304..ac113fe 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -444,8 +444,11 @@ static int conf_parse_pair(const char *key, size_t key_len,
 			conf->bind_addr_ext_add = calloc(
 				conf->bind_addr_ext_add_len,
 				sizeof(*conf->bind_addr_ext_add));
-			if (conf->bind_addr_ext_add == NULL)
+			if (conf->bind_addr_ext_add == NULL) {
+				conf->bind_addr_ext_add_len = 0;
+
 				return -ENOMEM;
+			}
 
 			for (i = 0, j = 0; i < conf->bind_addr_ext_add_len; i++) {
 				size_t k = j;
-- 
2.43.0


From f66519713c9e06afb8eca53d668df6d815526079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 37/38] fix: bound the time of connecting to the registrar

A registrar which does not answer the connection attempt (an unreachable or
filtered host) made proxy_close wait until the system gave up, for minutes.
---
 include/conn.h     |  4 ++++
 src/conn.c         | 17 +++++++++++++++++
 src/registration.c |  1 +
 3 files changed, 22 insertions(+)

diff --git a/include/conn.h b/include/conn.h
index cd23172..53df74a 100644
--- a/include/conn.h
+++ b/include/conn.h
@@ -83,6 +83,10 @@ struct conn_handle {
 
 	/*! Protocol to use for this connection */
 	enum CONN_TYPE type;
+
+	/*! Maximum time (in milliseconds) to wait for the remote host when
+	 *  connecting or sending, or 0 to leave that to the system */
+	uint32_t connect_timeout;
 };
 
 /*!
diff --git a/src/conn.c b/src/conn.c
index bdb9dcc..e2d1c26 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -359,6 +359,9 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 	struct addrinfo *res = NULL;
 	struct addrinfo *res_remote = NULL;
 	static const int yes = 1;
+#ifndef _WIN32
+	struct timeval timeout;
+#endif
 	int ret;
 
 	if (conn->type != CONN_TYPE_TCP)
@@ -417,6 +420,20 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 		goto conn_connect_free;
 	}
 
+#ifndef _WIN32
+	if (conn->connect_timeout != 0) {
+		timeout.tv_sec = conn->connect_timeout / 1000;
+		timeout.tv_usec = (conn->connect_timeout % 1000) * 1000;
+
+		ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_SNDTIMEO,
+				 (const void *)&timeout, sizeof(timeout));
+		if (ret == SOCKET_ERROR) {
+			ret = SOCK_ERRNO;
+			goto conn_connect_free;
+		}
+	}
+#endif
+
 	ret = connect(priv->sock_fd, res_remote->ai_addr,
 		      (socklen_t)res_remote->ai_addrlen);
 	if (ret == SOCKET_ERROR) {
diff --git a/src/registration.c b/src/registration.c
index 26a910f..08e2e42 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -222,6 +222,7 @@ static int send_report(struct registration_service_handle *rs,
 	}
 
 	conn.type = CONN_TYPE_TCP;
+	conn.connect_timeout = RESPONSE_TIMEOUT;
 	ret = conn_init(&conn);
 	if (ret < 0)
 		goto registration_update_exit;
-- 
2.43.0


From 5288f93754c9bd5eada22f906f10a54ef5b62121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:19 +0000
Subject: [PATCH 38/38] fix: publish a connecting socket under the connection's
 lock

---
 src/conn.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index e2d1c26..c4c3a4d 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -362,6 +362,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 #ifndef _WIN32
 	struct timeval timeout;
 #endif
+	SOCKET sock_fd;
 	int ret;
 
 	if (conn->type != CONN_TYPE_TCP)
@@ -391,14 +392,20 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 		goto conn_connect_free_early;
 	}
 
-	priv->sock_fd = socket(res->ai_family, res->ai_socktype,
-			       res->ai_protocol);
-	if (priv->sock_fd == INVALID_SOCKET) {
+	sock_fd = socket(res->ai_family, res->ai_socktype, res->ai_protocol);
+	if (sock_fd == INVALID_SOCKET) {
 		ret = SOCK_ERRNO;
 		goto conn_connect_free_early;
 	}
 
-	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_REUSEADDR,
+	/* From here on, another thread may shut the socket down */
+	mutex_lock(&priv->mutex);
+
+	priv->sock_fd = sock_fd;
+
+	mutex_unlock(&priv->mutex);
+
+	ret = setsockopt(sock_fd, SOL_SOCKET, SO_REUSEADDR,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
@@ -406,7 +413,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 	}
 
 #ifdef __APPLE__
-	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_NOSIGPIPE,
+	ret = setsockopt(sock_fd, SOL_SOCKET, SO_NOSIGPIPE,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
@@ -414,7 +421,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 	}
 #endif
 
-	ret = bind(priv->sock_fd, res->ai_addr, (socklen_t)res->ai_addrlen);
+	ret = bind(sock_fd, res->ai_addr, (socklen_t)res->ai_addrlen);
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
 		goto conn_connect_free;
@@ -425,7 +432,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 		timeout.tv_sec = conn->connect_timeout / 1000;
 		timeout.tv_usec = (conn->connect_timeout % 1000) * 1000;
 
-		ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_SNDTIMEO,
+		ret = setsockopt(sock_fd, SOL_SOCKET, SO_SNDTIMEO,
 				 (const void *)&timeout, sizeof(timeout));
 		if (ret == SOCKET_ERROR) {
 			ret = SOCK_ERRNO;
@@ -434,7 +441,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 	}
 #endif
 
-	ret = connect(priv->sock_fd, res_remote->ai_addr,
+	ret = connect(sock_fd, res_remote->ai_addr,
 		      (socklen_t)res_remote->ai_addrlen);
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
-- 
2.43.0

