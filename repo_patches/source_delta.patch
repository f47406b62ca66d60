From 69b68751b578f0774f0edea7a9f3305532940525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 01/57] fix: M_popen: do not allocate memory or run exit
 handlers between fork and exec

---
 thread/m_popen.c | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/thread/m_popen.c b/thread/m_popen.c
index dfce127..3978ff7 100644
--- a/thread/m_popen.c
+++ b/thread/m_popen.c
@@ -585,7 +585,9 @@ M_popen_handle_t *M_popen(const char *cmd, M_popen_err_t *errorid)
 	char             *full_cmd     = NULL;
 	size_t            full_cmd_len = 0;
 	M_popen_err_t     myerrorid;
-	char * const     *argv         = NULL;
+	char              sh_path[]    = "/bin/sh";
+	char              sh_arg[]     = "-c";
+	char             *argv[4];
 
 	if (errorid == NULL)
 		errorid = &myerrorid;
@@ -623,10 +625,25 @@ M_popen_handle_t *M_popen(const char *cmd, M_popen_err_t *errorid)
 	mp->stdin_fd  = stdin_fd[1];
 	mp->stderr_fd = stderr_fd[0];
 
+	/* Put exec before command so the pid of cmd is the pid returned instead
+	 * of the pid belonging to the /bin/sh wrapper.
+	 * This must be prepared before the fork, memory can not be safely allocated
+	 * in the child as another thread may have held the allocator's lock. */
+	full_cmd_len = M_str_len(cmd) + M_str_len(EXEC) + 2;
+	full_cmd     = M_malloc(full_cmd_len);
+	M_snprintf(full_cmd, full_cmd_len, "%s %s", EXEC, cmd);
+	full_cmd[full_cmd_len-1] = '\0';
+
+	argv[0]      = sh_path;
+	argv[1]      = sh_arg;
+	argv[2]      = full_cmd;
+	argv[3]      = NULL;
+
 	pid = fork();
 	if (pid == -1) {
 		/* Error */
 		*errorid = M_POPEN_ERR_SPAWN;
+		M_free(full_cmd);
 		M_free(mp);
 		close(stdin_fd[0]);
 		close(stdin_fd[1]);
@@ -664,15 +681,6 @@ M_popen_handle_t *M_popen(const char *cmd, M_popen_err_t *errorid)
 		if (stderr_fd[1] > 2)
 			close(stderr_fd[1]);
 
-		/* Put exec before command so the pid of cmd is the pid returned instead
-		 * of the pid belonging to the /bin/sh wrapper. */
-		full_cmd_len = M_str_len(cmd) + M_str_len(EXEC) + 2;
-		full_cmd     = M_malloc(full_cmd_len);
-		M_snprintf(full_cmd, full_cmd_len, "%s %s", EXEC, cmd);
-		full_cmd[full_cmd_len-1] = '\0';
-
-		argv = (char * const []){ M_strdup("/bin/sh"), M_strdup("-c"), full_cmd, NULL };
-
 		/* Work around for issue on Solaris (found on 10 x86/x64) where the shell would
 		 * return a broken pipe (retval 141) result when the process exited successfully.
 		 * Testing on *nix OS (Linux, SCO 5/6, Solaris) did not show any issues so not ifdefing
@@ -681,19 +689,16 @@ M_popen_handle_t *M_popen(const char *cmd, M_popen_err_t *errorid)
 		execvp(argv[0], argv);
 
 		/* NOTE: Will only get here on failure of execvp() */
-		M_free(argv[0]);
-		M_free(argv[1]);
-		M_free(argv[2]);
 
-		/* Map errno to exit codes */
+		/* Map errno to exit codes, must not run the parent's exit handlers */
 		if (errno == EACCES || errno == EPERM) {
-			exit(126);
+			_exit(126);
 		} else if (errno == ENOEXEC) {
-			exit(125);
+			_exit(125);
 		} else if (errno == ENOENT) {
-			exit(127);
+			_exit(127);
 		}
-		exit(124);
+		_exit(124);
 
 	} else {
 		/* Parent */
@@ -703,6 +708,8 @@ M_popen_handle_t *M_popen(const char *cmd, M_popen_err_t *errorid)
 		close(stdin_fd[0]);
 		close(stderr_fd[1]);
 
+		M_free(full_cmd);
+
 		/* Save child's pid */
 		mp->pid = pid;
 	}
-- 
2.43.0


From 32ff20824d8732f2488eed2067af456a8797ea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 02/57] fix: M_io_process: do not allocate memory, take locks
 or run exit handlers between fork and exec

---
 io/m_io_process.c | 60 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/io/m_io_process.c b/io/m_io_process.c
index ac332d7..255e5b0 100644
--- a/io/m_io_process.c
+++ b/io/m_io_process.c
@@ -141,6 +141,19 @@ static char **M_io_process_list_to_args(const char *command, M_list_str_t *list)
 }
 
 
+static void M_io_process_free_strlist(char **list)
+{
+	size_t i;
+
+	if (list == NULL)
+		return;
+
+	for (i=0; list[i] != NULL; i++)
+		M_free(list[i]);
+	M_free(list);
+}
+
+
 #define DEFAULT_EXIT_ERRORCODE 130
 
 static struct {
@@ -184,6 +197,19 @@ static void *M_io_process_thread(void *arg)
 	pid_t          pid;
 	M_io_layer_t  *layer   = NULL;
 	int            wstatus = 0;
+	char         **args;
+	char         **env;
+	int            fd_stdin;
+	int            fd_stdout;
+	int            fd_stderr;
+
+	/* Everything the child needs must be prepared before the fork.  Another thread may hold the
+	 * allocator's or any other lock at the time of the fork so it isn't safe for the child to use those. */
+	args      = M_io_process_list_to_args(handle->command, handle->args);
+	env       = M_io_process_dict_to_env(handle->env);
+	fd_stdin  = M_io_pipe_get_fd(handle->pipe_stdin);
+	fd_stdout = M_io_pipe_get_fd(handle->pipe_stdout);
+	fd_stderr = M_io_pipe_get_fd(handle->pipe_stderr);
 
 	pid = fork();
 
@@ -191,6 +217,9 @@ static void *M_io_process_thread(void *arg)
 	if (pid == -1) {
 		int           myerrno  = errno;
 
+		M_io_process_free_strlist(args);
+		M_io_process_free_strlist(env);
+
 		layer                  = M_io_layer_acquire(handle->proc, 0, "PROCESS");
 		handle->status         = M_IO_PROC_STATUS_ERROR;
 		handle->last_sys_error = myerrno;
@@ -207,26 +236,18 @@ static void *M_io_process_thread(void *arg)
 
 	/* Child */
 	if (pid == 0) {
-		int fd;
-
-		char **args = M_io_process_list_to_args(handle->command, handle->args);
-		char **env  = M_io_process_dict_to_env(handle->env);
-
 		/* Clone file descriptors to the proper ids */
-		fd = M_io_pipe_get_fd(handle->pipe_stdin);
-		dup2(fd, STDIN_FILENO);
-		if (fd > 2)
-			close(fd);
+		dup2(fd_stdin, STDIN_FILENO);
+		if (fd_stdin > 2)
+			close(fd_stdin);
 
-		fd = M_io_pipe_get_fd(handle->pipe_stdout);
-		dup2(fd, STDOUT_FILENO);
-		if (fd > 2)
-			close(fd);
+		dup2(fd_stdout, STDOUT_FILENO);
+		if (fd_stdout > 2)
+			close(fd_stdout);
 
-		fd = M_io_pipe_get_fd(handle->pipe_stderr);
-		dup2(fd, STDERR_FILENO);
-		if (fd > 2)
-			close(fd);
+		dup2(fd_stderr, STDERR_FILENO);
+		if (fd_stderr > 2)
+			close(fd_stderr);
 
 		if (env) {
 			execve(handle->command, args, env);
@@ -250,11 +271,14 @@ static void *M_io_process_thread(void *arg)
 		 *              format error that means it cannot be executed.
 		 *  - OTHERS  - Any other reason
 		 */
-		exit(M_io_process_errno_to_exitcode(errno));
+		_exit(M_io_process_errno_to_exitcode(errno));
 	}
 
 	/* Parent */
 
+	M_io_process_free_strlist(args);
+	M_io_process_free_strlist(env);
+
 	/* Close pipe endpoints, record pid, notify parent the process has started */
 	layer               = M_io_layer_acquire(handle->proc, 0, "PROCESS");
 	M_io_destroy(handle->pipe_stdin);
-- 
2.43.0


From 7b81e731cb66a3da944a1b72528da81fa429be31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 03/57] fix: M_io_net_get_fqdn: do not use gethostbyname, which
 is not thread-safe

---
 io/net/m_io_net.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/io/net/m_io_net.c b/io/net/m_io_net.c
index 8805d52..eca0a05 100644
--- a/io/net/m_io_net.c
+++ b/io/net/m_io_net.c
@@ -1509,8 +1509,10 @@ M_bool M_io_setnonblock(int fd)
 #endif
 char *M_io_net_get_fqdn(void)
 {
-	char            hostname[NI_MAXHOST+1];
-	struct hostent *h;
+	char             hostname[NI_MAXHOST+1];
+	struct addrinfo  hints;
+	struct addrinfo *ai   = NULL;
+	char            *fqdn = NULL;
 
 	if (gethostname(hostname, sizeof(hostname)) != 0)
 		return NULL;
@@ -1518,11 +1520,18 @@ char *M_io_net_get_fqdn(void)
 	if (*hostname == '\0')
 		return NULL;
 
-	h = gethostbyname(hostname);
-	if (h == NULL || h->h_name == NULL || *h->h_name == '\0')
+	/* NOTE: gethostbyname() isn't thread-safe */
+	M_mem_set(&hints, 0, sizeof(hints));
+	hints.ai_family   = AF_UNSPEC;
+	hints.ai_socktype = SOCK_STREAM;
+	hints.ai_flags    = AI_CANONNAME;
+
+	if (getaddrinfo(hostname, NULL, &hints, &ai) != 0 || ai == NULL)
 		return M_strdup(hostname);
 
-	return M_strdup(h->h_name);
+	fqdn = M_strdup((M_str_isempty(ai->ai_canonname))?hostname:ai->ai_canonname);
+	freeaddrinfo(ai);
+	return fqdn;
 }
 
 
-- 
2.43.0


From 8e998dc187a1125d249ec56fbe1d545a81d566d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 04/57] fix: M_str_casecmpsort: do not depend on the process
 locale

---
 base/data/m_str.c | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/base/data/m_str.c b/base/data/m_str.c
index cfc864e..aa1c9a5 100644
--- a/base/data/m_str.c
+++ b/base/data/m_str.c
@@ -27,10 +27,6 @@
 #include <stdlib.h> /* atoi; */
 #include <string.h> /* strlen */
 
-#ifdef HAVE_STRINGS_H
-#  include <strings.h> /* strcasecmp, strncasecmp */
-#endif
-
 #include <mstdlib/mstdlib.h>
 #include "m_defs_int.h"
 
@@ -731,29 +727,32 @@ int M_str_cmpsort_max(const char *s1, const char *s2, size_t max)
 	return strncmp(M_str_safe(s1), M_str_safe(s2), max);
 }
 
-#if defined(HAVE_STRCASECMP)
-#  define M_str_casecmp_unsafe strcasecmp
-#elif defined(HAVE__STRICMP)
-#  define M_str_casecmp_unsafe _stricmp
-#else
-#  error No usable M_str_casecmp_unsafe implementation!
-#endif
+/* strcasecmp() and friends depend on the process locale, and so can't be used: the result must be the
+ * same no matter what locale the application has selected. */
+static int M_str_casecmp_max_unsafe(const char *s1, const char *s2, size_t max)
+{
+	size_t i;
+
+	for (i=0; i<max; i++) {
+		unsigned char c1 = (unsigned char)M_chr_tolower(s1[i]);
+		unsigned char c2 = (unsigned char)M_chr_tolower(s2[i]);
+
+		if (c1 != c2)
+			return (c1 < c2)?-1:1;
+		if (c1 == '\0')
+			break;
+	}
+
+	return 0;
+}
 
 int M_str_casecmpsort(const char *s1, const char *s2)
 {
 	if (s1 == s2)
 		return 0;
-	return M_str_casecmp_unsafe(M_str_safe(s1), M_str_safe(s2));
+	return M_str_casecmp_max_unsafe(M_str_safe(s1), M_str_safe(s2), SIZE_MAX);
 }
 
-#if defined(HAVE_STRNCASECMP)
-#  define M_str_casecmp_max_unsafe strncasecmp
-#elif defined(HAVE__STRNICMP)
-#  define M_str_casecmp_max_unsafe _strnicmp
-#else
-#  error No usable M_str_casecmp_max_unsafe implementation!
-#endif
-
 int M_str_casecmpsort_max(const char *s1, const char *s2, size_t max)
 {
 	if (s1 == s2)
-- 
2.43.0


From aa9fbdf4daa6a0653a7bd51530131b89aceb8ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 05/57] fix: M_io_close: release the lock when a layer can not
 be reset

---
 io/m_io.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/io/m_io.c b/io/m_io.c
index 3b5cc11..e1e2cb8 100644
--- a/io/m_io.c
+++ b/io/m_io.c
@@ -249,6 +249,7 @@ M_bool M_io_close(M_io_t *io)
 {
 	ssize_t            i;
 	size_t             num;
+	M_bool             rv = M_FALSE;
 
 	if (io == NULL || io->flags & M_IO_FLAG_USER_DESTROY)
 		return M_FALSE;
@@ -262,18 +263,20 @@ M_bool M_io_close(M_io_t *io)
 	for (i=(ssize_t)num - 1; i >= 0; i--) {
 		M_io_layer_t *layer = M_io_layer_at(io, (size_t)i);
 		if (layer->cb.cb_reset == NULL)
-			return M_FALSE;
+			goto done;
 		if (!layer->cb.cb_reset(layer))
-			return M_FALSE;
+			goto done;
 	}
 
 	io->flags = M_IO_FLAG_NONE;
+	rv        = M_TRUE;
 
+done:
 	if (io->reg_event) {
 		M_io_unlock(io);
 	}
 
-	return M_TRUE;
+	return rv;
 }
 
 static void M_io_destroy_full(M_io_t *io)
-- 
2.43.0


From d0e025dd2685ea692b08bcfbe0935e694a459ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 06/57] fix: M_event_softevent_process: do not use a list node
 after it was taken off its list

---
 io/m_event.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/io/m_event.c b/io/m_event.c
index c417479..b8bce4f 100644
--- a/io/m_event.c
+++ b/io/m_event.c
@@ -993,10 +993,10 @@ static void M_event_softevent_process(M_event_t *event)
 
 		softevent  = M_llist_take_node(node);
 
-		if (softevent->io->flags & M_IO_FLAG_USER_DESTROY)
-			continue;
-
-		num_layers = M_io_layer_count(softevent->io) + 1 /* User layer */;
+		/* Don't enqueue anything for an object which is being destroyed */
+		num_layers = 0;
+		if (!(softevent->io->flags & M_IO_FLAG_USER_DESTROY))
+			num_layers = M_io_layer_count(softevent->io) + 1 /* User layer */;
 
 		/* Enqueue all events */
 		for (j=0; j<num_layers; j++) {
-- 
2.43.0


From 6b9a6b7a1f750f7289cabf29ca892015d2bcda6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 07/57] fix: M_malloc_clear_errorcb: clear every registered
 callback

---
 base/mem/m_mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/mem/m_mem.c b/base/mem/m_mem.c
index 87bf5b6..82d3cb1 100644
--- a/base/mem/m_mem.c
+++ b/base/mem/m_mem.c
@@ -131,7 +131,7 @@ void M_malloc_clear_errorcb(void)
 	if (error_cbs_cnt <= 1)
 		return;
 
-	M_mem_set(error_cbs+1, 0, (sizeof(error_cbs)/sizeof(*error_cbs))-1); 
+	M_mem_set(error_cbs+1, 0, sizeof(error_cbs) - sizeof(*error_cbs));
 	error_cbs_cnt = 1;
 }
 
-- 
2.43.0


From 5eda95d2344e9359539658516d92648a3e10c184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 08/57] fix: M_sql_driver_conn_get_password: return the
 password, not the username

---
 sql/m_sql_connpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/m_sql_connpool.c b/sql/m_sql_connpool.c
index 6b6b524..1e1e3ea 100644
--- a/sql/m_sql_connpool.c
+++ b/sql/m_sql_connpool.c
@@ -1256,7 +1256,7 @@ const char *M_sql_driver_conn_get_password(M_sql_conn_t *conn)
 {
 	if (conn == NULL)
 		return NULL;
-	return M_sql_driver_pool_get_username(conn->pool);
+	return M_sql_driver_pool_get_password(conn->pool);
 }
 
 
-- 
2.43.0


From a8b631f8322dbf2c34b372a39bf0cf7fc1afda82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 09/57] fix: M_sql_trans_commit: do not use the connection
 after it was given back

---
 sql/m_sql_trans.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sql/m_sql_trans.c b/sql/m_sql_trans.c
index d45c64e..a8681ee 100644
--- a/sql/m_sql_trans.c
+++ b/sql/m_sql_trans.c
@@ -166,10 +166,10 @@ M_sql_error_t M_sql_trans_commit(M_sql_trans_t *trans, char *error, size_t error
 
 	/* Prevent attempting a commit if we must roll back, issue a rollback instead */
 	if (M_sql_conn_get_state(trans->conn) != M_SQL_CONN_STATE_OK) {
-		M_sql_conn_t *conn = trans->conn;
 		M_snprintf(error, error_size, "forced rollback");
-		M_sql_trans_rollback(trans);
-		if (M_sql_conn_get_state(conn) == M_SQL_CONN_STATE_FAILED) {
+		/* NOTE: the connection belongs to the pool again (and may even be gone) once rolled back */
+		err = M_sql_trans_rollback(trans);
+		if (M_sql_error_is_disconnect(err)) {
 			err = M_SQL_ERROR_CONN_FAILED;
 		} else {
 			err = M_SQL_ERROR_QUERY_DEADLOCK;
-- 
2.43.0


From 26c5ae61c27d5ed20959b9e19719343c044a6a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 10/57] fix: M_utf8_is_valid_cp rejects the noncharacters of
 planes 10 to 15 too

---
 base/utf8/m_utf8.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/utf8/m_utf8.c b/base/utf8/m_utf8.c
index 63e3451..aba434e 100644
--- a/base/utf8/m_utf8.c
+++ b/base/utf8/m_utf8.c
@@ -134,6 +134,12 @@ M_bool M_utf8_is_valid_cp(M_uint32 cp)
 		cp == 0x7FFFE || cp == 0x7FFFF ||
 		cp == 0x8FFFE || cp == 0x8FFFF ||
 		cp == 0x9FFFE || cp == 0x9FFFF ||
+		cp == 0xAFFFE || cp == 0xAFFFF ||
+		cp == 0xBFFFE || cp == 0xBFFFF ||
+		cp == 0xCFFFE || cp == 0xCFFFF ||
+		cp == 0xDFFFE || cp == 0xDFFFF ||
+		cp == 0xEFFFE || cp == 0xEFFFF ||
+		cp == 0xFFFFE || cp == 0xFFFFF ||
 		cp == 0x10FFFE || cp == 0x10FFFF ||
 		(cp >= 0xFDD0 && cp <= 0xFDEF))
 	{
-- 
2.43.0


From 786a66eff5e54294ee351b7db15822559254c234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:45 +0000
Subject: [PATCH 11/57] fix: U+13440 is a nonspacing mark (Mn), not a format
 character (Cf)

---
 base/utf8/m_utf8_tables.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/utf8/m_utf8_tables.c b/base/utf8/m_utf8_tables.c
index 9f65c52..4e0c631 100644
--- a/base/utf8/m_utf8_tables.c
+++ b/base/utf8/m_utf8_tables.c
@@ -52,7 +52,7 @@ const M_uint32 M_utf8_table_Cf[] = {
 	0x2067, 0x2068, 0x2069, 0x206A, 0x206B, 0x206C, 0x206D, 0x206E, 0x206F, 0xFEFF,
 	0xFFF9, 0xFFFA, 0xFFFB, 0x110BD, 0x110CD, 0x13430, 0x13431, 0x13432, 0x13433, 0x13434,
 	0x13435, 0x13436, 0x13437, 0x13438, 0x13439, 0x1343A, 0x1343B, 0x1343C, 0x1343D, 0x1343E,
-	0x1343F, 0x13440, 0x1BCA0, 0x1BCA1, 0x1BCA2, 0x1BCA3, 0x1D173, 0x1D174, 0x1D175, 0x1D176,
+	0x1343F, 0x1BCA0, 0x1BCA1, 0x1BCA2, 0x1BCA3, 0x1D173, 0x1D174, 0x1D175, 0x1D176,
 	0x1D177, 0x1D178, 0x1D179, 0x1D17A, 0xE0001, 0xE0020, 0xE0021, 0xE0022, 0xE0023, 0xE0024,
 	0xE0025, 0xE0026, 0xE0027, 0xE0028, 0xE0029, 0xE002A, 0xE002B, 0xE002C, 0xE002D, 0xE002E,
 	0xE002F, 0xE0030, 0xE0031, 0xE0032, 0xE0033, 0xE0034, 0xE0035, 0xE0036, 0xE0037, 0xE0038,
@@ -65,7 +65,7 @@ const M_uint32 M_utf8_table_Cf[] = {
 	0xE0075, 0xE0076, 0xE0077, 0xE0078, 0xE0079, 0xE007A, 0xE007B, 0xE007C, 0xE007D, 0xE007E,
 	0xE007F
 };
-const size_t M_utf8_table_Cf_len = 171;
+const size_t M_utf8_table_Cf_len = 170;
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
@@ -2495,7 +2495,7 @@ const M_uint32 M_utf8_table_Mn[] = {
 	0x11CAE, 0x11CAF, 0x11CB0, 0x11CB2, 0x11CB3, 0x11CB5, 0x11CB6, 0x11D31, 0x11D32, 0x11D33,
 	0x11D34, 0x11D35, 0x11D36, 0x11D3A, 0x11D3C, 0x11D3D, 0x11D3F, 0x11D40, 0x11D41, 0x11D42,
 	0x11D43, 0x11D44, 0x11D45, 0x11D47, 0x11D90, 0x11D91, 0x11D95, 0x11D97, 0x11EF3, 0x11EF4,
-	0x11F00, 0x11F01, 0x11F36, 0x11F37, 0x11F38, 0x11F39, 0x11F3A, 0x11F40, 0x11F42, 0x13447,
+	0x11F00, 0x11F01, 0x11F36, 0x11F37, 0x11F38, 0x11F39, 0x11F3A, 0x11F40, 0x11F42, 0x13440, 0x13447,
 	0x13448, 0x13449, 0x1344A, 0x1344B, 0x1344C, 0x1344D, 0x1344E, 0x1344F, 0x13450, 0x13451,
 	0x13452, 0x13453, 0x13454, 0x13455, 0x16AF0, 0x16AF1, 0x16AF2, 0x16AF3, 0x16AF4, 0x16B30,
 	0x16B31, 0x16B32, 0x16B33, 0x16B34, 0x16B35, 0x16B36, 0x16F4F, 0x16F8F, 0x16F90, 0x16F91,
@@ -2554,7 +2554,7 @@ const M_uint32 M_utf8_table_Mn[] = {
 	0xE01E2, 0xE01E3, 0xE01E4, 0xE01E5, 0xE01E6, 0xE01E7, 0xE01E8, 0xE01E9, 0xE01EA, 0xE01EB,
 	0xE01EC, 0xE01ED, 0xE01EE, 0xE01EF
 };
-const size_t M_utf8_table_Mn_len = 1984;
+const size_t M_utf8_table_Mn_len = 1985;
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
-- 
2.43.0


From 549c3b1048e72712ba0124404067ca3618649fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 12/57] fix: M_textcodec_codec_from_str: accept iso8859_16 (was
 misspelt iso8859_17)

---
 text/textcodec/m_textcodec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/text/textcodec/m_textcodec.c b/text/textcodec/m_textcodec.c
index fa2c570..6535484 100644
--- a/text/textcodec/m_textcodec.c
+++ b/text/textcodec/m_textcodec.c
@@ -622,7 +622,7 @@ M_textcodec_codec_t M_textcodec_codec_from_str(const char *s)
 			M_str_caseeq(s, "l10")          || 
 			M_str_caseeq(s, "iso-8859-16") || 
 			M_str_caseeq(s, "iso8859-16")  || 
-			M_str_caseeq(s, "iso8859_17")  || 
+			M_str_caseeq(s, "iso8859_16")  || 
 			M_str_caseeq(s, "iso885916")   || 
 			M_str_caseeq(s, "885916"))
 	{
-- 
2.43.0


From 36d9956d22894e84bff94091071b8ca85ae62169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 13/57] fix: release the writer's lock when its thread cannot
 be started

---
 log/m_async_writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/log/m_async_writer.c b/log/m_async_writer.c
index c4e7ae8..01c4609 100644
--- a/log/m_async_writer.c
+++ b/log/m_async_writer.c
@@ -457,6 +457,7 @@ M_bool M_async_writer_start(M_async_writer_t *writer)
 
 	/* Start write thread. */
 	if (M_thread_create(NULL, write_thread, writer) == 0) {
+		M_thread_mutex_unlock(writer->lock);
 		return M_FALSE;
 	}
 
-- 
2.43.0


From 00bccecab093ca6bc1c2001b0d51aded1a0e973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 14/57] fix: release the io layer on every return of
 M_io_proxy_protocol_set_source_endpoints

---
 io/m_io_proxy_protocol.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/io/m_io_proxy_protocol.c b/io/m_io_proxy_protocol.c
index 2240f46..292eb21 100644
--- a/io/m_io_proxy_protocol.c
+++ b/io/m_io_proxy_protocol.c
@@ -1188,18 +1188,19 @@ M_bool M_io_proxy_protocol_set_source_endpoints(M_io_t *io, const char *source_i
 	unsigned char    ipaddr_bin[32];
 	M_io_net_type_t  net_type;
 	size_t           len;
+	M_bool           ret    = M_FALSE;
 
 	if (layer == NULL || handle == NULL)
-		return M_FALSE;
+		goto done;
 
 	if (handle->is_inbound)
-		return M_FALSE;
+		goto done;
 
 	/* For local we need both IPs to be NULL. Otherwise, we need both set. */
 	if ((M_str_isempty(source_ipaddr) && !M_str_isempty(dest_ipaddr)) ||
 			(!M_str_isempty(source_ipaddr) && M_str_isempty(dest_ipaddr)))
 	{
-		return M_FALSE;
+		goto done;
 	}
 
 	/* Empty IP, this is a local. */
@@ -1212,18 +1213,19 @@ M_bool M_io_proxy_protocol_set_source_endpoints(M_io_t *io, const char *source_i
 		handle->dest_port     = 0;
 		handle->local         = M_TRUE;
 		handle->net_type      = M_IO_NET_ANY;
-		return M_TRUE;
+		ret                   = M_TRUE;
+		goto done;
 	}
 
 	/* Not local at this point.
  	 * Verify we have valid ports. */
 	if (source_port == 0 || dest_port == 0)
-		return M_FALSE;
+		goto done;
 
 	/* Verify the ip format for our source and dest are valid. */
 	len = M_str_len(source_ipaddr);
 	if (!M_io_net_ipaddr_to_bin(ipaddr_bin, sizeof(ipaddr_bin), source_ipaddr, &len))
-		return M_FALSE;
+		goto done;
 
 	/* Determine the net type from the IP. */
 	if (len == 4) {
@@ -1234,14 +1236,14 @@ M_bool M_io_proxy_protocol_set_source_endpoints(M_io_t *io, const char *source_i
 
 	len = M_str_len(dest_ipaddr);
 	if (!M_io_net_ipaddr_to_bin(ipaddr_bin, sizeof(ipaddr_bin), dest_ipaddr, &len))
-		return M_FALSE;
+		goto done;
 
 	/* Verify the source and dest IPs are the same net type. */
 	if (net_type == M_IO_NET_IPV4 && len != 4)
-		return M_FALSE;
+		goto done;
 
 	if (net_type == M_IO_NET_IPV6 && len != 16)
-		return M_FALSE;
+		goto done;
 
 	M_free(handle->source_ipaddr);
 	M_free(handle->dest_ipaddr);
@@ -1251,6 +1253,9 @@ M_bool M_io_proxy_protocol_set_source_endpoints(M_io_t *io, const char *source_i
 	handle->dest_port     = dest_port;
 	handle->local         = M_FALSE;
 	handle->net_type      = net_type;
+	ret                   = M_TRUE;
 
-	return M_TRUE;
+done:
+	M_io_layer_release(layer);
+	return ret;
 }
-- 
2.43.0


From 11b88081f68a11b564712fde04a5ac0125ed4c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 15/57] fix: release the io layer when a serial getter is given
 no result pointer

---
 io/m_io_serial.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/io/m_io_serial.c b/io/m_io_serial.c
index f2a80e5..806d58f 100644
--- a/io/m_io_serial.c
+++ b/io/m_io_serial.c
@@ -91,8 +91,10 @@ M_io_error_t M_io_serial_get_flowcontrol(M_io_t *io, M_io_serial_flowcontrol_t *
 	M_io_handle_t *handle;
 
 	layer        = M_io_layer_acquire(io, 0, M_IO_SERIAL_NAME);
-	if (layer == NULL || flowcontrol == NULL)
+	if (layer == NULL || flowcontrol == NULL) {
+		M_io_layer_release(layer);
 		return M_IO_ERROR_INVALID;
+	}
 
 	handle       = M_io_layer_get_handle(layer);
 
@@ -109,8 +111,10 @@ M_io_error_t M_io_serial_get_mode(M_io_t *io, M_io_serial_mode_t *mode)
 	M_io_handle_t *handle;
 
 	layer        = M_io_layer_acquire(io, 0, M_IO_SERIAL_NAME);
-	if (layer == NULL || mode == NULL)
+	if (layer == NULL || mode == NULL) {
+		M_io_layer_release(layer);
 		return M_IO_ERROR_INVALID;
+	}
 
 	handle       = M_io_layer_get_handle(layer);
 
@@ -128,8 +132,10 @@ M_io_error_t M_io_serial_get_baud(M_io_t *io, M_io_serial_baud_t *baud)
 	M_io_handle_t *handle;
 
 	layer        = M_io_layer_acquire(io, 0, M_IO_SERIAL_NAME);
-	if (layer == NULL || baud == NULL)
+	if (layer == NULL || baud == NULL) {
+		M_io_layer_release(layer);
 		return M_IO_ERROR_INVALID;
+	}
 
 	handle       = M_io_layer_get_handle(layer);
 
-- 
2.43.0


From 65d8208a7d48cac00e9faf4921e0a95921378c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 16/57] fix: unlocking an emulated rwlock nobody holds must not
 keep its mutex

---
 thread/m_thread_rwlock_emu.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thread/m_thread_rwlock_emu.c b/thread/m_thread_rwlock_emu.c
index 8636343..d8c3521 100644
--- a/thread/m_thread_rwlock_emu.c
+++ b/thread/m_thread_rwlock_emu.c
@@ -165,6 +165,9 @@ M_bool M_thread_rwlock_emu_unlock(M_thread_rwlock_t *rwlock)
 			/* otherwise, if there are readers waiting, wake THEM ALL up */
 			M_thread_cond_broadcast(rwlock->rd_cond);
 		}
+	} else {
+		/* Not locked */
+		M_thread_mutex_unlock(rwlock->mutex);
 	}
 
 	return M_TRUE;
-- 
2.43.0


From 4d9244d1d1eac5eec6ece7c24c3f88efd804b3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 17/57] fix: M_popen pipes must not be inherited by processes
 started elsewhere

---
 thread/m_popen.c | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/thread/m_popen.c b/thread/m_popen.c
index 3978ff7..7b4624e 100644
--- a/thread/m_popen.c
+++ b/thread/m_popen.c
@@ -575,6 +575,32 @@ M_popen_handle_t *M_popen(const char *cmd, M_popen_err_t *errorid)
 
 #else
 
+/* The pipes must not leak into processes started by other threads, they would
+ * hold them open and this process would never see EOF. */
+static int M_popen_pipe(int fds[2])
+{
+#if defined(HAVE_PIPE2) && defined(O_CLOEXEC)
+	return pipe2(fds, O_CLOEXEC);
+#else
+	if (pipe(fds) != 0)
+		return -1;
+	fcntl(fds[0], F_SETFD, FD_CLOEXEC);
+	fcntl(fds[1], F_SETFD, FD_CLOEXEC);
+	return 0;
+#endif
+}
+
+/* Called in the child only, must be async-signal-safe. */
+static void M_popen_redirect(int fd, int target)
+{
+	if (fd == target) {
+		/* dup2() does nothing for the same descriptor, keep it across the exec */
+		fcntl(fd, F_SETFD, 0);
+		return;
+	}
+	dup2(fd, target);
+}
+
 M_popen_handle_t *M_popen(const char *cmd, M_popen_err_t *errorid)
 {
 	M_popen_handle_t *mp;
@@ -595,14 +621,14 @@ M_popen_handle_t *M_popen(const char *cmd, M_popen_err_t *errorid)
 	mp = M_malloc_zero(sizeof(*mp));
 
 	/* Create stdin pipes */
-	if (pipe(stdin_fd) != 0) {
+	if (M_popen_pipe(stdin_fd) != 0) {
 		*errorid = M_POPEN_ERR_PIPE;
 		M_free(mp);
 		return NULL;
 	}
 
 	/* Create stdout pipes */
-	if (pipe(stdout_fd) != 0) {
+	if (M_popen_pipe(stdout_fd) != 0) {
 		*errorid = M_POPEN_ERR_PIPE;
 		M_free(mp);
 		close(stdin_fd[0]);
@@ -611,7 +637,7 @@ M_popen_handle_t *M_popen(const char *cmd, M_popen_err_t *errorid)
 	}
 
 	/* Create stderr pipes */
-	if (pipe(stderr_fd) != 0) {
+	if (M_popen_pipe(stderr_fd) != 0) {
 		*errorid = M_POPEN_ERR_PIPE;
 		M_free(mp);
 		close(stdin_fd[0]);
@@ -658,7 +684,7 @@ M_popen_handle_t *M_popen(const char *cmd, M_popen_err_t *errorid)
 		/* Need to clone the file descriptors to the proper ids */
 
 		/* redirect writefd pipe (read) to STDIN */
-		dup2(stdin_fd[0], STDIN_FILENO);
+		M_popen_redirect(stdin_fd[0], STDIN_FILENO);
 
 		/* close unused writefds */
 		close(stdin_fd[1]);
@@ -666,7 +692,7 @@ M_popen_handle_t *M_popen(const char *cmd, M_popen_err_t *errorid)
 			close(stdin_fd[0]);
 
 		/* redirect readfd pipe (write) to STDOUT */
-		dup2(stdout_fd[1], STDOUT_FILENO);
+		M_popen_redirect(stdout_fd[1], STDOUT_FILENO);
 
 		/* Close unused readfds */
 		close(stdout_fd[0]);
@@ -674,7 +700,7 @@ M_popen_handle_t *M_popen(const char *cmd, M_popen_err_t *errorid)
 			close(stdout_fd[1]);
 
 		/* redirect errfd pipe (write) to STDERR */
-		dup2(stderr_fd[1], STDERR_FILENO);
+		M_popen_redirect(stderr_fd[1], STDERR_FILENO);
 
 		/* Close unused errfds */
 		close(stderr_fd[0]);
-- 
2.43.0


From b49237a4ce0305a565068712c54bcd2f58361958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 18/57] fix: M_email_process_address released a group name
 twice when a group has no addresses

---
 formats/email/m_email_common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/email/m_email_common.c b/formats/email/m_email_common.c
index 30ba23f..002494d 100644
--- a/formats/email/m_email_common.c
+++ b/formats/email/m_email_common.c
@@ -186,6 +186,7 @@ M_email_error_t M_email_process_address(const char *val, M_email_error_t (*addre
 			if (group_name != NULL) {
 				res = address_func(group_name, NULL, NULL, thunk);
 				M_free(group_name);
+				group_name = NULL;
 				if (res != M_EMAIL_ERROR_SUCCESS) {
 					goto done;
 				}
-- 
2.43.0


From 061ff247b479ccf3bc2ac92bc52a929cdeadd6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 19/57] fix: do not hold the session lock while reactivating
 idle SMTP sessions

---
 net/smtp/m_net_smtp_endpoint.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/smtp/m_net_smtp_endpoint.c b/net/smtp/m_net_smtp_endpoint.c
index 8888af1..3527be2 100644
--- a/net/smtp/m_net_smtp_endpoint.c
+++ b/net/smtp/m_net_smtp_endpoint.c
@@ -48,7 +48,10 @@ void M_net_smtp_endpoint_reactivate_idle(const M_net_smtp_endpoint_t *ep)
 	session = M_list_take_last(ep->idle_sessions);
 	while (session != NULL) {
 		M_list_insert(ep->send_sessions, session);
+		/* A finished session moves itself between the lists, which takes the lock. */
+		M_thread_rwlock_unlock(ep->sessions_rwlock);
 		M_net_smtp_session_reactivate_tcp(session);
+		M_thread_rwlock_lock(ep->sessions_rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
 		session = M_list_take_last(ep->idle_sessions);
 	}
 	M_thread_rwlock_unlock(ep->sessions_rwlock);
-- 
2.43.0


From 32cb7352c291627fec3070bcc66a812662adf411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 20/57] fix: read the async writer state before releasing its
 lock

---
 log/m_async_writer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/log/m_async_writer.c b/log/m_async_writer.c
index 01c4609..408c9ee 100644
--- a/log/m_async_writer.c
+++ b/log/m_async_writer.c
@@ -438,6 +438,8 @@ M_bool M_async_writer_destroy_blocking(M_async_writer_t *writer, M_bool flush, M
 
 M_bool M_async_writer_start(M_async_writer_t *writer)
 {
+	M_bool is_running;
+
 	if (writer == NULL) {
 		return M_FALSE;
 	}
@@ -445,9 +447,10 @@ M_bool M_async_writer_start(M_async_writer_t *writer)
 	M_thread_mutex_lock(writer->lock);
 
 	if (writer->state != M_ASYNC_WRITER_STOPPED) {
-		M_thread_mutex_unlock(writer->lock);
 		/* Return M_TRUE if already running, M_FALSE if we're in the middle of a destroy. */
-		return (writer->state == M_ASYNC_WRITER_RUNNING)? M_TRUE : M_FALSE;
+		is_running = (writer->state == M_ASYNC_WRITER_RUNNING)? M_TRUE : M_FALSE;
+		M_thread_mutex_unlock(writer->lock);
+		return is_running;
 	}
 
 	/* Reset to fresh state. I'm intentionally not resetting write_command. */
-- 
2.43.0


From 38c83f02318ecb9e796507058a2352758cd896b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 21/57] fix: take the internal SMTP queue under its lock when
 dumping it

---
 net/smtp/m_net_smtp_queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/smtp/m_net_smtp_queue.c b/net/smtp/m_net_smtp_queue.c
index 3a781bc..324a7bc 100644
--- a/net/smtp/m_net_smtp_queue.c
+++ b/net/smtp/m_net_smtp_queue.c
@@ -440,8 +440,8 @@ M_list_str_t *M_net_smtp_queue_dump(M_net_smtp_queue_t *q)
 		return list;
 	}
 
-	list = q->internal_queue;
 	M_thread_rwlock_lock(q->internal_queue_rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
+	list = q->internal_queue;
 	q->internal_queue = M_list_str_create(M_LIST_STR_NONE);
 	M_thread_rwlock_unlock(q->internal_queue_rwlock);
 
-- 
2.43.0


From 4ffebfd70da46ee99255377ceedbb0c9a2b05d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 22/57] fix: set the SMTP status under its lock when resuming

---
 net/smtp/m_net_smtp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/net/smtp/m_net_smtp.c b/net/smtp/m_net_smtp.c
index b4cf7cc..1ed7a6d 100644
--- a/net/smtp/m_net_smtp.c
+++ b/net/smtp/m_net_smtp.c
@@ -455,12 +455,14 @@ M_bool M_net_smtp_resume(M_net_smtp_t *sp)
 				M_event_queue_task(sp->el, M_net_smtp_prune_endpoints_task, sp);
 				M_net_smtp_prune_endpoints(sp);
 			}
+			M_thread_rwlock_lock(sp->status_rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
 			if (M_net_smtp_queue_is_pending(sp->queue)) {
 				sp->status = M_NET_SMTP_STATUS_PROCESSING;
 				M_event_queue_task(sp->el, M_net_smtp_queue_advance_task, sp->queue);
 			} else {
 				sp->status = M_NET_SMTP_STATUS_IDLE;
 			}
+			M_thread_rwlock_unlock(sp->status_rwlock);
 			return M_TRUE;
 	}
 	return M_FALSE; /* impossible */
-- 
2.43.0


From 3094db4d01cf5df228f34105402e08893cd56d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 23/57] fix: hold the SMTP endpoint lock while pruning
 endpoints

---
 net/smtp/m_net_smtp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/net/smtp/m_net_smtp.c b/net/smtp/m_net_smtp.c
index 1ed7a6d..c055c9f 100644
--- a/net/smtp/m_net_smtp.c
+++ b/net/smtp/m_net_smtp.c
@@ -202,6 +202,7 @@ void M_net_smtp_prune_endpoints(M_net_smtp_t *sp)
 {
 	size_t i;
 	M_bool is_requeue = M_FALSE;
+	M_thread_mutex_lock(sp->endpoints_mutex);
 	for (i=M_list_len(sp->endpoints); i-->0; ) {
 		const M_net_smtp_endpoint_t *ep = M_list_at(sp->endpoints, i);
 		if (ep->is_removed) {
@@ -212,6 +213,7 @@ void M_net_smtp_prune_endpoints(M_net_smtp_t *sp)
 			}
 		}
 	}
+	M_thread_mutex_unlock(sp->endpoints_mutex);
 	if (is_requeue) {
 		M_event_queue_task(sp->el, M_net_smtp_prune_endpoints_task, sp);
 	}
-- 
2.43.0


From 7ab711023dc24c83afb9440b8c21004a4a2da0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 24/57] fix: hold the DNS lock when the server configuration is
 reloaded

---
 io/net/m_dns.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/io/net/m_dns.c b/io/net/m_dns.c
index 0d3533d..d79044e 100644
--- a/io/net/m_dns.c
+++ b/io/net/m_dns.c
@@ -734,10 +734,13 @@ M_printf("ares_init_options failed (%d): %s\n", err, ares_strerror(err));
 
 static void M_dns_reload_server_cb(M_event_t *event, M_event_type_t type, M_io_t *io, void *cb_arg)
 {
+	M_dns_t *dns = cb_arg;
 	(void)event;
 	(void)type;
 	(void)io;
-	M_dns_reload_server(cb_arg, M_TRUE);
+	M_thread_mutex_lock(dns->lock);
+	M_dns_reload_server(dns, M_TRUE);
+	M_thread_mutex_unlock(dns->lock);
 }
 
 static void M_dns_ares_channel_free(void *arg)
-- 
2.43.0


From f325dcb4521b23e183e7856898f7354b4236b66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 25/57] fix: hold the event lock while looking up a timer that
 removes itself

---
 io/m_event_timer.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/io/m_event_timer.c b/io/m_event_timer.c
index ea8c773..3516c10 100644
--- a/io/m_event_timer.c
+++ b/io/m_event_timer.c
@@ -200,11 +200,11 @@ static void M_event_timer_remove_cb(M_event_t *event, M_event_type_t type, M_io_
 	(void)type;
 	(void)io;
 
-	/* Destroyed out from under us */
-	if (!M_queue_exists(event->u.loop.timers, timer))
-		return;
-
-	M_event_timer_remove(timer);
+	M_event_lock(event);
+	/* Unless destroyed out from under us */
+	if (M_queue_exists(event->u.loop.timers, timer))
+		M_event_timer_remove(timer);
+	M_event_unlock(event);
 }
 
 
-- 
2.43.0


From e1cda29e890baf451011f3e3a7adda36999b1561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 26/57] fix: hold the server context lock while using its DH
 parameters

---
 tls/m_tls.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tls/m_tls.c b/tls/m_tls.c
index f79076a..e76ad9e 100644
--- a/tls/m_tls.c
+++ b/tls/m_tls.c
@@ -1340,6 +1340,7 @@ static M_bool M_io_tls_setup_server(M_io_layer_t *layer)
 	M_io_handle_t *handle = M_io_layer_get_handle(layer);
 
 	/* Initialize SSL handle */
+	M_thread_mutex_lock(handle->serverctx->lock);
 	handle->ssl = SSL_new(handle->serverctx->ctx);
 
 	/* If DHE negotiation is enabled, set it up now */
@@ -1347,6 +1348,7 @@ static M_bool M_io_tls_setup_server(M_io_layer_t *layer)
 		EVP_PKEY_up_ref(handle->serverctx->dh);
 		SSL_set0_tmp_dh_pkey(handle->ssl, handle->serverctx->dh);
 	}
+	M_thread_mutex_unlock(handle->serverctx->lock);
 
 	/* Set the layer as the 'thunk' data for the custom bio */
 	handle->bio_glue    = M_tls_bio_new(layer);
-- 
2.43.0


From 2afe72a66aca89e4e53f740d924f4b174af21ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 27/57] fix: hold the server context lock while setting the
 cipher preference

---
 tls/m_tls_serverctx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tls/m_tls_serverctx.c b/tls/m_tls_serverctx.c
index 899859e..4da4025 100644
--- a/tls/m_tls_serverctx.c
+++ b/tls/m_tls_serverctx.c
@@ -557,11 +557,13 @@ M_bool M_tls_serverctx_set_server_preference(M_tls_serverctx_t *ctx, M_bool tf)
 	if (ctx == NULL || ctx->ctx == NULL)
 		return M_FALSE;
 
+	M_thread_mutex_lock(ctx->lock);
 	if (tf) {
 		SSL_CTX_set_options(ctx->ctx, SSL_OP_CIPHER_SERVER_PREFERENCE);
 	} else {
 		SSL_CTX_clear_options(ctx->ctx, SSL_OP_CIPHER_SERVER_PREFERENCE);
 	}
+	M_thread_mutex_unlock(ctx->lock);
 	return M_TRUE;
 }
 
-- 
2.43.0


From 44f1105be843c3c508c091a93c72a8eb1ddb5f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 28/57] fix: hold the event lock in the timer setters and
 getters

---
 io/m_event_timer.c | 67 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 16 deletions(-)

diff --git a/io/m_event_timer.c b/io/m_event_timer.c
index 3516c10..45c1d67 100644
--- a/io/m_event_timer.c
+++ b/io/m_event_timer.c
@@ -345,15 +345,20 @@ M_bool M_event_timer_stop(M_event_timer_t *timer)
 
 M_bool M_event_timer_reset(M_event_timer_t *timer, M_uint64 interval_ms)
 {
+	M_bool rv = M_TRUE;
+
 	if (timer == NULL || timer->event == NULL)
 		return M_FALSE;
 
-	if (timer->started) {
-		if (!M_event_timer_stop_int(timer, M_FALSE))
-			return M_FALSE;
-	}
+	M_event_lock(timer->event);
+	if (timer->started)
+		rv = M_event_timer_stop_int(timer, M_FALSE);
 
-	return M_event_timer_start(timer, (interval_ms == 0)?timer->interval_ms:interval_ms);
+	if (rv)
+		rv = M_event_timer_start(timer, (interval_ms == 0)?timer->interval_ms:interval_ms);
+	M_event_unlock(timer->event);
+
+	return rv;
 }
 
 
@@ -382,14 +387,18 @@ M_bool M_event_timer_set_starttv(M_event_timer_t *timer, M_timeval_t *start_tv)
 	if (timer == NULL || timer->event == NULL || (start_tv != NULL && !M_event_timer_tvset(start_tv)))
 		return M_FALSE;
 
-	if (start_tv == NULL && !M_event_timer_tvset(&timer->start_tv))
+	M_event_lock(timer->event);
+	if (start_tv == NULL && !M_event_timer_tvset(&timer->start_tv)) {
+		M_event_unlock(timer->event);
 		return M_FALSE;
+	}
 
 	if (start_tv == NULL) {
 		M_mem_set(&timer->start_tv, 0, sizeof(timer->start_tv));
 	} else {
 		M_mem_copy(&timer->start_tv, start_tv, sizeof(timer->start_tv));
 	}
+	M_event_unlock(timer->event);
 	return M_TRUE;
 }
 
@@ -399,14 +408,18 @@ M_bool M_event_timer_set_endtv(M_event_timer_t *timer, M_timeval_t *end_tv)
 	if (timer == NULL || timer->event == NULL || (end_tv != NULL && !M_event_timer_tvset(end_tv)))
 		return M_FALSE;
 
-	if (end_tv == NULL && !M_event_timer_tvset(&timer->end_tv))
+	M_event_lock(timer->event);
+	if (end_tv == NULL && !M_event_timer_tvset(&timer->end_tv)) {
+		M_event_unlock(timer->event);
 		return M_FALSE;
+	}
 
 	if (end_tv == NULL) {
 		M_mem_set(&timer->end_tv, 0, sizeof(timer->end_tv));
 	} else {
 		M_mem_copy(&timer->end_tv, end_tv, sizeof(timer->end_tv));
 	}
+	M_event_unlock(timer->event);
 	return M_TRUE;
 }
 
@@ -416,7 +429,9 @@ M_bool M_event_timer_set_firecount(M_event_timer_t *timer, size_t cnt)
 	if (timer == NULL || timer->event == NULL)
 		return M_FALSE;
 
+	M_event_lock(timer->event);
 	timer->fire_cnt = cnt;
+	M_event_unlock(timer->event);
 	return M_TRUE;
 }
 
@@ -426,7 +441,9 @@ M_bool M_event_timer_set_autoremove(M_event_timer_t *timer, M_bool enabled)
 	if (timer == NULL || timer->event == NULL)
 		return M_FALSE;
 
+	M_event_lock(timer->event);
 	timer->autodestroy = enabled;
+	M_event_unlock(timer->event);
 	return M_TRUE;
 }
 
@@ -436,23 +453,29 @@ M_bool M_event_timer_set_mode(M_event_timer_t *timer, M_event_timer_mode_t mode)
 	if (timer == NULL || timer->event == NULL)
 		return M_FALSE;
 
+	M_event_lock(timer->event);
 	timer->mode = mode;
+	M_event_unlock(timer->event);
 	return M_TRUE;
 }
 
 
 M_uint64 M_event_timer_get_remaining_ms(M_event_timer_t *timer)
 {
-	M_int64     remaining_ms;
+	M_int64     remaining_ms = 0;
 	M_timeval_t curr;
 
-	if (timer == NULL || timer->event == NULL || !timer->started)
+	if (timer == NULL || timer->event == NULL)
 		return 0;
 
-	M_time_elapsed_start(&curr);
-	remaining_ms = M_time_timeval_diff(&curr, &timer->next_run);
-	if (remaining_ms < 0)
-		remaining_ms = 0;
+	M_event_lock(timer->event);
+	if (timer->started) {
+		M_time_elapsed_start(&curr);
+		remaining_ms = M_time_timeval_diff(&curr, &timer->next_run);
+		if (remaining_ms < 0)
+			remaining_ms = 0;
+	}
+	M_event_unlock(timer->event);
 
 	return (M_uint64)remaining_ms;
 }
@@ -460,17 +483,29 @@ M_uint64 M_event_timer_get_remaining_ms(M_event_timer_t *timer)
 
 M_uint64 M_event_timer_get_interval_ms(M_event_timer_t *timer)
 {
+	M_uint64 interval_ms;
+
 	if (timer == NULL)
 		return 0;
-	return timer->interval_ms;
+
+	M_event_lock(timer->event);
+	interval_ms = timer->interval_ms;
+	M_event_unlock(timer->event);
+	return interval_ms;
 }
 
 
 M_bool M_event_timer_get_status(M_event_timer_t *timer)
 {
-	if (timer == NULL || timer->event == NULL || !timer->started)
+	M_bool started;
+
+	if (timer == NULL || timer->event == NULL)
 		return M_FALSE;
-	return M_TRUE;
+
+	M_event_lock(timer->event);
+	started = timer->started;
+	M_event_unlock(timer->event);
+	return started;
 }
 
 
-- 
2.43.0


From b7938c05d4bedb0dd0e7f2cba80364ee767e23c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 29/57] fix: wake the previous pipeline step when an aborted
 step drops its task

---
 thread/m_thread_pipeline.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thread/m_thread_pipeline.c b/thread/m_thread_pipeline.c
index 4bedfc4..b166eb8 100644
--- a/thread/m_thread_pipeline.c
+++ b/thread/m_thread_pipeline.c
@@ -276,6 +276,10 @@ static void *pipeline_thread_cb(void *arg)
 	if (step->task) {
 		pipeline_finish_task(step->parent, step->task, M_THREAD_PIPELINE_RESULT_ABORT);
 		step->task = NULL;
+		/* The prior step may be waiting to hand over a task */
+		if (step->idx != 0) {
+			M_thread_cond_signal(step->parent->steps[step->idx - 1].cond);
+		}
 	}
 
 	/* Dequeue and abort any queued tasks */
-- 
2.43.0


From 1b66367d98ad623ae30b2fa185de8b0f666476c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 30/57] fix: do not hold the pipeline lock while calling the
 task finish callback

---
 thread/m_thread_pipeline.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/thread/m_thread_pipeline.c b/thread/m_thread_pipeline.c
index b166eb8..73a62d0 100644
--- a/thread/m_thread_pipeline.c
+++ b/thread/m_thread_pipeline.c
@@ -197,7 +197,12 @@ static M_thread_pipeline_task_t *pipeline_fetch_task(M_thread_pipeline_step_t *s
 
 static void pipeline_finish_task(M_thread_pipeline_t *pipeline, M_thread_pipeline_task_t *task, M_thread_pipeline_result_t rv)
 {
+	/* Don't hold the lock across the user's callback, it may enqueue more tasks.
+	 * The task still counts as outstanding until the callback returns. */
+	M_thread_mutex_unlock(pipeline->lock);
 	pipeline->finish_cb(task, rv);
+	M_thread_mutex_lock(pipeline->lock);
+
 	pipeline->cnt--;
 	/* Notify any waiters */
 	M_thread_cond_broadcast(pipeline->cond);
@@ -274,8 +279,9 @@ static void *pipeline_thread_cb(void *arg)
 
 	/* Clean up any assigned tasks */
 	if (step->task) {
-		pipeline_finish_task(step->parent, step->task, M_THREAD_PIPELINE_RESULT_ABORT);
+		task       = step->task;
 		step->task = NULL;
+		pipeline_finish_task(step->parent, task, M_THREAD_PIPELINE_RESULT_ABORT);
 		/* The prior step may be waiting to hand over a task */
 		if (step->idx != 0) {
 			M_thread_cond_signal(step->parent->steps[step->idx - 1].cond);
-- 
2.43.0


From 9b8c9f27f3ddc97e12d3e96a4c902b2aa552be18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 31/57] fix: fail M_io_accept() on a layer that cannot accept
 instead of calling a null callback

---
 io/m_io.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/io/m_io.c b/io/m_io.c
index e1e2cb8..fc9e40f 100644
--- a/io/m_io.c
+++ b/io/m_io.c
@@ -723,7 +723,11 @@ M_io_error_t M_io_accept(M_io_t **io_out, M_io_t *server_io)
 	num = M_list_len(server_io->layer);
 	for (i=0; i<num; i++) {
 		M_io_layer_t *orig_layer = M_io_layer_at(server_io, i);
-		err = orig_layer->cb.cb_accept(*io_out, orig_layer);
+		if (orig_layer->cb.cb_accept == NULL) {
+			err = M_IO_ERROR_NOTIMPL;
+		} else {
+			err = orig_layer->cb.cb_accept(*io_out, orig_layer);
+		}
 		if (err != M_IO_ERROR_SUCCESS) {
 			M_io_destroy(*io_out);
 			*io_out = NULL;
-- 
2.43.0


From bf1ded3e84951d6d981ce0cf494947cb1c2eb6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 32/57] fix: release the JSON tree when a settings key cannot
 be written

---
 formats/settings/m_settings_writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/settings/m_settings_writer.c b/formats/settings/m_settings_writer.c
index e4d37f7..aba79c1 100644
--- a/formats/settings/m_settings_writer.c
+++ b/formats/settings/m_settings_writer.c
@@ -362,6 +362,7 @@ static M_bool M_settings_write_json(const M_settings_t *settings, M_hash_dict_t
 	while (M_hash_dict_enumerate_next(dict, dictenum, &key, &val)) {
 		if (!M_settings_write_json_node(json, key, val)) {
 			M_hash_dict_enumerate_free(dictenum);
+			M_json_node_destroy(json);
 			return M_FALSE;
 		}
 	}
-- 
2.43.0


From 383cabb0e65fa7c227df554a5fbf4fae9d0737b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 33/57] fix: release the framed message when the TCP syslog
 module drops it

---
 log/m_log_tcp_syslog.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/log/m_log_tcp_syslog.c b/log/m_log_tcp_syslog.c
index c11d371..e825160 100644
--- a/log/m_log_tcp_syslog.c
+++ b/log/m_log_tcp_syslog.c
@@ -383,6 +383,7 @@ static void log_write_cb(M_log_module_t *mod, const char *msg, M_uint64 tag)
 	 */
 	if (mdata->flush_flag) {
 		M_thread_mutex_unlock(mdata->msg_lock);
+		M_buf_cancel(buf);
 		return;
 	}
 
@@ -392,6 +393,7 @@ static void log_write_cb(M_log_module_t *mod, const char *msg, M_uint64 tag)
 			mdata->num_dropped++;
 		}
 		M_thread_mutex_unlock(mdata->msg_lock);
+		M_buf_cancel(buf);
 		return;
 	}
 
-- 
2.43.0


From 652e9fa5b93c36f2af524f2738a41d6ed9bec17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 34/57] fix: close both ends of a pipe that cannot be made
 non-blocking

---
 io/m_io_pipe_posix.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/io/m_io_pipe_posix.c b/io/m_io_pipe_posix.c
index 49b1357..b27258c 100644
--- a/io/m_io_pipe_posix.c
+++ b/io/m_io_pipe_posix.c
@@ -208,6 +208,8 @@ M_io_error_t M_io_pipe_create(M_uint32 flags, M_io_t **reader, M_io_t **writer)
 		 * handing over stdin to a process as that process may not expect
 		 * a non-blocking socket. */
 		if (!M_io_setnonblock(pipefds[0])) {
+			close(pipefds[0]);
+			close(pipefds[1]);
 			return M_IO_ERROR_ERROR;
 		}
 	}
@@ -216,6 +218,8 @@ M_io_error_t M_io_pipe_create(M_uint32 flags, M_io_t **reader, M_io_t **writer)
 	} else {
 		/* If not setting up for inheritance, set up for non-blocking */
 		if (!M_io_setnonblock(pipefds[1])) {
+			close(pipefds[0]);
+			close(pipefds[1]);
 			return M_IO_ERROR_ERROR;
 		}
 	}
-- 
2.43.0


From a88eb8050e37a72216194aebab81dcef44b5926d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 35/57] fix: release the enumerator when a JSON object member
 cannot be written

---
 formats/json/m_json_writer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/formats/json/m_json_writer.c b/formats/json/m_json_writer.c
index 4c9a14f..8a65537 100644
--- a/formats/json/m_json_writer.c
+++ b/formats/json/m_json_writer.c
@@ -84,8 +84,10 @@ static M_bool M_json_write_node_object(const M_json_node_t *node, M_buf_t *buf,
 		if (flags & (M_JSON_WRITER_PRETTYPRINT_SPACE|M_JSON_WRITER_PRETTYPRINT_TAB))
 			M_buf_add_byte(buf, ' ');
 
-		if (!M_json_write_node((const M_json_node_t *)value, buf, depth, flags))
+		if (!M_json_write_node((const M_json_node_t *)value, buf, depth, flags)) {
+			M_hash_strvp_enumerate_free(hashenum);
 			return M_FALSE;
+		}
 
 		len--;
 		if (len > 0) {
-- 
2.43.0


From b6beb9cd7e7d570b7e1381faacca55dec17b7fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 36/57] fix: release the home directory path when determining a
 user settings file name

---
 formats/settings/m_settings.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/settings/m_settings.c b/formats/settings/m_settings.c
index 72522ab..709a1a9 100644
--- a/formats/settings/m_settings.c
+++ b/formats/settings/m_settings.c
@@ -134,6 +134,7 @@ static char *M_settings_determine_filename(const char *organization, const char
 				return NULL;
 			}
 			M_list_str_insert(parts, out);
+			M_free(out);
 #if defined(__APPLE__)
 			M_list_str_insert(parts, "Library/Preferences");
 #elif !defined(_WIN32)
-- 
2.43.0


From 12ddfb51efee764ae28b6aa9270870a7f5f8dc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 37/57] fix: release an empty attachment file name before
 replacing it

---
 formats/email/m_email.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/email/m_email.c b/formats/email/m_email.c
index 3fbd6ad..04358f7 100644
--- a/formats/email/m_email.c
+++ b/formats/email/m_email.c
@@ -231,6 +231,7 @@ static M_bool parse_insert_attachment(M_email_t *email, const char *data, size_t
 		content_type = M_email_attachment_parse_info_content_type(const_temp, &myfilename);
 
 		if (M_str_isempty(filename)) {
+			M_free(filename);
 			filename = myfilename;
 		} else {
 			M_free(myfilename);
-- 
2.43.0


From ee00ecdb91b2e89403647dc861798bfe85bcc140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 38/57] fix: release the writer state when the log file cannot
 be opened

---
 log/m_log_file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/log/m_log_file.c b/log/m_log_file.c
index 7301157..d7286a0 100644
--- a/log/m_log_file.c
+++ b/log/m_log_file.c
@@ -670,6 +670,7 @@ M_log_error_t M_log_module_add_file(M_log_t *log, const char *log_file_path, siz
 
 	if (open_head_logfile(writer_thunk, M_FALSE) != M_FS_ERROR_SUCCESS) {
 		/* This early open allows most I/O errors to be caught before logging starts. */
+		writer_thunk_destroy(writer_thunk);
 		return M_LOG_UNREACHABLE;
 	}
 
-- 
2.43.0


From e4507214c2e2b4fdec71aac2e65fe33aa613abfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 39/57] fix: release a newly prepared MySQL statement when
 binding or metadata fails

---
 sql/mysql/mstdlib_sql_mysql.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sql/mysql/mstdlib_sql_mysql.c b/sql/mysql/mstdlib_sql_mysql.c
index 8338596..bc342eb 100644
--- a/sql/mysql/mstdlib_sql_mysql.c
+++ b/sql/mysql/mstdlib_sql_mysql.c
@@ -757,9 +757,6 @@ static M_sql_error_t mysql_cb_prepare(M_sql_driver_stmt_t **driver_stmt, M_sql_c
 			err = mysql_resolve_error(NULL, (M_int32)merr);
 			goto fail;
 		}
-
-		/* Prepare succeeded, so its ok to cache this */
-		new_stmt             = M_FALSE;
 	}
 
 	/* Bind parameters */
-- 
2.43.0


From 30d8a8865c777da0f44a9b442dd21e229e603f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 40/57] fix: set the SMTP process connection mask before events
 can be delivered

---
 net/smtp/m_net_smtp_session.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/net/smtp/m_net_smtp_session.c b/net/smtp/m_net_smtp_session.c
index b510ac0..3f56ecd 100644
--- a/net/smtp/m_net_smtp_session.c
+++ b/net/smtp/m_net_smtp_session.c
@@ -610,8 +610,9 @@ M_net_smtp_session_t *M_net_smtp_session_create(const M_net_smtp_t *sp, const M_
 			goto fail;
 		}
 		session->state_machine = M_net_smtp_flow_process();
-		M_event_add(sp->el, session->io, session_proc_advance_proc_task, session);
+		/* The event can be delivered as soon as the io object is added */
 		session->connection_mask = M_NET_SMTP_CONNECTION_MASK_PROC_ALL;
+		M_event_add(sp->el, session->io, session_proc_advance_proc_task, session);
 	} else {
 		io_error = M_io_net_client_create(&session->io, sp->tcp_dns, ep->tcp.address, ep->tcp.port, M_IO_NET_ANY);
 		if (io_error != M_IO_ERROR_SUCCESS) {
-- 
2.43.0


From 86337b4adbbcaca6a27c4adae166a916f67183e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 41/57] fix: release the match when M_re_matches() gives up on
 an empty match

---
 text/re/m_re.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/text/re/m_re.c b/text/re/m_re.c
index 7606b75..d77d815 100644
--- a/text/re/m_re.c
+++ b/text/re/m_re.c
@@ -192,6 +192,7 @@ M_list_t *M_re_matches(const M_re_t *re, const char *str)
 	pos = 0;
 	while (M_re_search(re, str+pos, &match)) {
 		if (!M_re_match_idx(match, 0, &offset, &len)) {
+			M_re_match_destroy(match);
 			M_list_destroy(matches, M_TRUE);
 			return NULL;
 		}
-- 
2.43.0


From 9c412e9f09acdacd7ac4c1ecd9592c8b048eeb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 42/57] fix: release the section name when an INI line cannot
 be parsed

---
 formats/ini/m_ini_reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/ini/m_ini_reader.c b/formats/ini/m_ini_reader.c
index fb6a315..ed0149e 100644
--- a/formats/ini/m_ini_reader.c
+++ b/formats/ini/m_ini_reader.c
@@ -538,6 +538,7 @@ static M_fs_error_t M_ini_reader_parse_str(M_ini_t **ini, const char *s, const M
 		res            = M_ini_reader_parse_line(&elem, lines[i], info);
 		if (res != M_FS_ERROR_SUCCESS) {
 			*err_line = real_line_cnt;
+			M_free(section_name);
 			M_ini_explode_lines_free(lines, num_lines);
 			M_ini_destroy(*ini);
 			*ini = NULL;
-- 
2.43.0


From 69e743b87f335b00b620d5770f73b73bef93917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 43/57] fix: release the full key when an INI section exists
 already

---
 formats/ini/m_ini.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/ini/m_ini.c b/formats/ini/m_ini.c
index 307efc3..0c7134c 100644
--- a/formats/ini/m_ini.c
+++ b/formats/ini/m_ini.c
@@ -608,6 +608,7 @@ M_bool M_ini_section_insert(M_ini_t *ini, const char *name)
 
 	/* Already exists so we don't need to add anything */
 	if (M_hash_strvp_get(ini->sections, int_key, NULL)) {
+		M_free(int_full_key);
 		M_free(int_key);
 		return M_TRUE;
 	}
-- 
2.43.0


From 0163ab13755e41ab148206a73678c6977e1d8a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 44/57] fix: release HID id properties that are empty or not a
 number

---
 io/m_io_hid_linux.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/io/m_io_hid_linux.c b/io/m_io_hid_linux.c
index d504e20..e34bf92 100644
--- a/io/m_io_hid_linux.c
+++ b/io/m_io_hid_linux.c
@@ -101,11 +101,15 @@ static M_uint16 hid_get_vendorid(const char *basepath)
 	M_uint32    id;
 
 	id_str = hid_get_property(basepath, filename);
-	if (M_str_isempty(id_str))
+	if (M_str_isempty(id_str)) {
+		M_free(id_str);
 		return 0;
+	}
 
-	if (M_str_to_uint32_ex(id_str, M_str_len(id_str), 16, &id, NULL) != M_STR_INT_SUCCESS)
+	if (M_str_to_uint32_ex(id_str, M_str_len(id_str), 16, &id, NULL) != M_STR_INT_SUCCESS) {
+		M_free(id_str);
 		return 0;
+	}
 	M_free(id_str);
 	return (M_uint16)id;
 }
@@ -117,11 +121,15 @@ static M_uint16 hid_get_productid(const char *basepath)
 	M_uint32    id;
 
 	id_str = hid_get_property(basepath, filename);
-	if (M_str_isempty(id_str))
+	if (M_str_isempty(id_str)) {
+		M_free(id_str);
 		return 0;
+	}
 
-	if (M_str_to_uint32_ex(id_str, M_str_len(id_str), 16, &id, NULL) != M_STR_INT_SUCCESS)
+	if (M_str_to_uint32_ex(id_str, M_str_len(id_str), 16, &id, NULL) != M_STR_INT_SUCCESS) {
+		M_free(id_str);
 		return 0;
+	}
 
 	M_free(id_str);
 	return (M_uint16)id;
-- 
2.43.0


From 45f8ea1e73cafaaf5374b736182d6e7f63c956fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 45/57] fix: release the copied CSV data when parsing it with
 headers fails

---
 formats/csv/m_csv.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/formats/csv/m_csv.c b/formats/csv/m_csv.c
index 844640a..8f4708d 100644
--- a/formats/csv/m_csv.c
+++ b/formats/csv/m_csv.c
@@ -342,6 +342,7 @@ M_csv_t *M_csv_parse(const char *data, size_t len, char delim, char quote, M_uin
 M_csv_t *M_csv_parse_add_headers(const char *data, size_t len, char delim, char quote, M_uint32 flags,
 	M_list_str_t *headers)
 {
+	M_csv_t *csv;
 	M_buf_t *buf;
 	size_t   i;
 	char    *out;
@@ -369,7 +370,10 @@ M_csv_t *M_csv_parse_add_headers(const char *data, size_t len, char delim, char
 
 	/* Parse in-place. The returned CSV object takes ownership of 'out'. */
 	out = M_buf_finish_str(buf, &out_len);
-	return M_csv_parse_inplace(out, out_len, delim, quote, flags);
+	csv = M_csv_parse_inplace(out, out_len, delim, quote, flags);
+	if (csv == NULL)
+		M_free(out);
+	return csv;
 }
 
 
-- 
2.43.0


From 4e73299f2be66aeb5c7562de3394c0b53a4c4a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:21 +0000
Subject: [PATCH 46/57] fix: release the section part of each key when removing
 an INI section

---
 formats/ini/m_ini.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/ini/m_ini.c b/formats/ini/m_ini.c
index 0c7134c..05c9d07 100644
--- a/formats/ini/m_ini.c
+++ b/formats/ini/m_ini.c
@@ -696,6 +696,7 @@ M_bool M_ini_section_remove(M_ini_t *ini, const char *name)
 			M_ini_kvs_remove(ini->kvs, s_full_key);
 			M_hash_dict_remove(ini->key_lookup, s_full_key);
 		}
+		M_free(s_sect);
 	}
 	M_list_str_destroy(kvs_keys);
 
-- 
2.43.0


From 64433f33848dc488cdf112419794451fbecf5163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:45 +0000
Subject: [PATCH 47/57] fix: release the replacement value when a binary set
 holds it already

---
 base/list/m_list_bin.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/list/m_list_bin.c b/base/list/m_list_bin.c
index 7e82aaf..55e397b 100644
--- a/base/list/m_list_bin.c
+++ b/base/list/m_list_bin.c
@@ -224,7 +224,9 @@ size_t M_list_bin_replace_val(M_list_bin_t *d, const M_uint8 *val, size_t len, c
 	cnt = M_list_replace_val((M_list_t *)d, duped_val, new_duped_val, M_list_bin_convert_match_type(type));
 	M_free(duped_val);
 
-	if (cnt == 0)
+	/* The list holds the wrapped value only if it was put into the list. It won't have
+	 * been if nothing matched or if a set already has the new value. */
+	if (cnt == 0 || !M_list_index_of((M_list_t *)d, new_duped_val, M_LIST_MATCH_PTR, NULL))
 		M_free(new_duped_val);
 	return cnt;
 }
-- 
2.43.0


From 50a4616a7e51e91c3dbc79386bbe3f8a77ecad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 48/57] fix: compare the data of wrapped binary values, not the
 padding before it

---
 base/sort/m_sort_compar.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/base/sort/m_sort_compar.c b/base/sort/m_sort_compar.c
index f60d5d5..9139a42 100644
--- a/base/sort/m_sort_compar.c
+++ b/base/sort/m_sort_compar.c
@@ -79,10 +79,10 @@ int M_sort_compar_u64_desc(const void *arg1, const void *arg2, void *thunk)
 
 int M_sort_compar_binwraped(const void *arg1, const void *arg2, void *thunk)
 {
-	M_uint8 *val1;
-	M_uint8 *val2;
-	size_t   len1;
-	size_t   len2;
+	const M_uint8 *val1;
+	const M_uint8 *val2;
+	size_t         len1;
+	size_t         len2;
 
 	(void)thunk;
 
@@ -93,12 +93,11 @@ int M_sort_compar_binwraped(const void *arg1, const void *arg2, void *thunk)
 	if (arg2 == NULL)
 		return 1;
 
-	val1 = *(M_uint8 * const *)arg1;
-	val2 = *(M_uint8 * const *)arg2;
-	M_mem_copy(&len1, val1, sizeof(len1));
-	M_mem_copy(&len2, val2, sizeof(len1));
+	/* The data doesn't directly follow the length and there is no wrapper for an empty value. */
+	val1 = M_bin_unwrap(*(M_uint8 * const *)arg1, &len1);
+	val2 = M_bin_unwrap(*(M_uint8 * const *)arg2, &len2);
 
-	return M_mem_cmpsort(val1, len1+sizeof(len1), val2, len2+sizeof(len2));
+	return M_mem_cmpsort(val1, len1, val2, len2);
 }
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
-- 
2.43.0


From 529d6fd0dd85337990fb0eb0116d84d35d3fa081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 49/57] fix: release the wrapped value a binary list does not
 take

---
 base/list/m_list_bin.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/base/list/m_list_bin.c b/base/list/m_list_bin.c
index 55e397b..5904436 100644
--- a/base/list/m_list_bin.c
+++ b/base/list/m_list_bin.c
@@ -73,7 +73,13 @@ void M_list_bin_destroy(M_list_bin_t *d)
 M_bool M_list_bin_insert(M_list_bin_t *d, const M_uint8 *val, size_t len)
 {
 	M_uint8 *duped_val = M_bin_wrap(val, len);
-	return M_list_insert((M_list_t *)d, duped_val);
+	M_bool   ret       = M_list_insert((M_list_t *)d, duped_val);
+
+	/* A set that already has the value won't take it. */
+	if (!ret)
+		M_free(duped_val);
+
+	return ret;
 }
 
 size_t M_list_bin_insert_idx(const M_list_bin_t *d, const M_uint8 *val, size_t len)
@@ -91,7 +97,12 @@ size_t M_list_bin_insert_idx(const M_list_bin_t *d, const M_uint8 *val, size_t l
 M_bool M_list_bin_insert_at(M_list_bin_t *d, const M_uint8 *val, size_t len, size_t idx)
 {
 	M_uint8 *duped_val = M_bin_wrap(val, len);
-	return M_list_insert_at((M_list_t *)d, duped_val, idx);
+	M_bool   ret       = M_list_insert_at((M_list_t *)d, duped_val, idx);
+
+	if (!ret)
+		M_free(duped_val);
+
+	return ret;
 }
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
-- 
2.43.0


From 26782efc7741e4b8b408f1672cd556680530d3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 50/57] fix: release the previous subject when email headers
 hold several

---
 formats/email/m_email.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/email/m_email.c b/formats/email/m_email.c
index 04358f7..8565a4a 100644
--- a/formats/email/m_email.c
+++ b/formats/email/m_email.c
@@ -325,6 +325,7 @@ M_bool M_email_set_headers(M_email_t *email, const M_hash_dict_t *headers)
 		} else if (M_str_caseeq(key, "From")) {
 			res = M_email_process_address(val, set_single_address, from);
 		} else if (M_str_caseeq(key, "Subject")) {
+			M_free(subject);
 			subject = M_strdup(val);
 		} else {
 			M_hash_dict_insert(new_headers, key, val);
-- 
2.43.0


From 06fb9b561d245af9480d6549867134fbe2796857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 51/57] fix: do not destroy the TCP syslog connection twice
 when it cannot be added to the event loop

---
 log/m_log_tcp_syslog.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/log/m_log_tcp_syslog.c b/log/m_log_tcp_syslog.c
index e825160..da7d349 100644
--- a/log/m_log_tcp_syslog.c
+++ b/log/m_log_tcp_syslog.c
@@ -614,7 +614,6 @@ M_log_error_t M_log_module_add_tcp_syslog(M_log_t *log, const char *product, M_s
 
 	/* Add io object to event loop, set callback. */
 	if (!M_event_add(mdata->event, mdata->io, io_event_cb, mdata)) {
-		M_io_destroy(mdata->io);
 		module_thunk_destroy(mdata);
 		return M_LOG_GENERIC_FAIL;
 	}
-- 
2.43.0


From c5160079c995d8b10f0e74abd93cf5cab0a44017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:21 +0000
Subject: [PATCH 52/57] fix: accept a NULL field in
 M_sql_tabledata_field_set_binary_dup like its siblings do

---
 sql/m_sql_tabledata.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/m_sql_tabledata.c b/sql/m_sql_tabledata.c
index 5f3399c..f011750 100644
--- a/sql/m_sql_tabledata.c
+++ b/sql/m_sql_tabledata.c
@@ -195,6 +195,9 @@ void M_sql_tabledata_field_set_binary_own(M_sql_tabledata_field_t *field, unsign
 
 void M_sql_tabledata_field_set_binary_dup(M_sql_tabledata_field_t *field, const unsigned char *val, size_t len)
 {
+	if (field == NULL)
+		return;
+
 	M_sql_tabledata_field_clear(field);
 	field->type              = M_SQL_DATA_TYPE_BINARY;
 	field->d.bin.data_alloc  = M_memdup(val, len);
-- 
2.43.0


From 8d6d03f88890d17b9fcbd20eddb66ff608c7dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:23 +0000
Subject: [PATCH 53/57] fix: bound the nesting M_json_read follows by recursion

---
 formats/json/m_json_reader.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/formats/json/m_json_reader.c b/formats/json/m_json_reader.c
index c729efa..658de39 100644
--- a/formats/json/m_json_reader.c
+++ b/formats/json/m_json_reader.c
@@ -29,7 +29,10 @@
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
-static M_json_node_t *M_json_read_value(M_parser_t *parser, M_uint32 flags, M_json_error_t *error);
+/* Nesting is followed by recursion, the data must not be able to exhaust the stack. */
+#define M_JSON_MAX_DEPTH 1024
+
+static M_json_node_t *M_json_read_value(M_parser_t *parser, size_t depth, M_uint32 flags, M_json_error_t *error);
 
 /*! Eat comments.
  * Supports C and C++ style / * and / / (no spaces between the two characters) comments.
@@ -123,7 +126,7 @@ static M_bool M_json_eat_ignored(M_parser_t *parser, M_uint32 flags, M_json_erro
 	return M_TRUE;
 }
 
-static M_json_node_t *M_json_read_object(M_parser_t *parser, M_uint32 flags, M_json_error_t *error)
+static M_json_node_t *M_json_read_object(M_parser_t *parser, size_t depth, M_uint32 flags, M_json_error_t *error)
 {
 	M_json_node_t *key_node;
 	M_json_node_t *val_node;
@@ -158,7 +161,7 @@ static M_json_node_t *M_json_read_object(M_parser_t *parser, M_uint32 flags, M_j
 		}
 
 		/* Read the key part of the pair. */
-		key_node = M_json_read_value(parser, flags, error);
+		key_node = M_json_read_value(parser, depth+1, flags, error);
 		if (key_node == NULL) {
 			M_json_node_destroy(node);
 			return NULL;
@@ -190,7 +193,7 @@ static M_json_node_t *M_json_read_object(M_parser_t *parser, M_uint32 flags, M_j
 		M_parser_consume(parser, 1);
 
 		/* Read the value part of the pair. */
-		val_node = M_json_read_value(parser, flags, error);
+		val_node = M_json_read_value(parser, depth+1, flags, error);
 		if (val_node == NULL) {
 			M_json_node_destroy(key_node);
 			M_json_node_destroy(node);
@@ -240,7 +243,7 @@ static M_json_node_t *M_json_read_object(M_parser_t *parser, M_uint32 flags, M_j
 	return node;
 }
 
-static M_json_node_t *M_json_read_array(M_parser_t *parser, M_uint32 flags, M_json_error_t *error)
+static M_json_node_t *M_json_read_array(M_parser_t *parser, size_t depth, M_uint32 flags, M_json_error_t *error)
 {
 	M_json_node_t *sub_node;
 	M_json_node_t *node    = NULL;
@@ -269,7 +272,7 @@ static M_json_node_t *M_json_read_array(M_parser_t *parser, M_uint32 flags, M_js
 		}
 
 		/* Read the value from the list*/
-		sub_node = M_json_read_value(parser, flags, error);
+		sub_node = M_json_read_value(parser, depth+1, flags, error);
 		if (sub_node == NULL) {
 			M_json_node_destroy(node);
 			return NULL;
@@ -517,10 +520,15 @@ static M_json_node_t *M_json_read_number(M_parser_t *parser, M_uint32 flags, M_j
 	return node;
 }
 
-static M_json_node_t *M_json_read_value(M_parser_t *parser, M_uint32 flags, M_json_error_t *error)
+static M_json_node_t *M_json_read_value(M_parser_t *parser, size_t depth, M_uint32 flags, M_json_error_t *error)
 {
 	unsigned char c;
 
+	if (depth > M_JSON_MAX_DEPTH) {
+		*error = M_JSON_ERROR_GENERIC;
+		return NULL;
+	}
+
 	if (!M_json_eat_ignored(parser, flags, error)) {
 		return NULL;
 	}
@@ -529,9 +537,9 @@ static M_json_node_t *M_json_read_value(M_parser_t *parser, M_uint32 flags, M_js
 		c = *M_parser_peek(parser);
 		switch (c) {
 			case '{':
-				return M_json_read_object(parser, flags, error);
+				return M_json_read_object(parser, depth, flags, error);
 			case '[':
-				return M_json_read_array(parser, flags, error);
+				return M_json_read_array(parser, depth, flags, error);
 			case '"':
 				return M_json_read_string(parser, flags, error);
 			case 't':
@@ -615,7 +623,7 @@ M_json_node_t *M_json_read(const char *data, size_t data_len, M_uint32 flags, si
 	}
 
 	parser = M_parser_create_const((const unsigned char *)data, data_len, M_PARSER_FLAG_TRACKLINES);
-	root   = M_json_read_value(parser, flags, error);
+	root   = M_json_read_value(parser, 0, flags, error);
 	if (root == NULL) {
 		M_json_read_format_error_pos(parser, error_line, error_pos);
 		M_json_node_destroy(root);
-- 
2.43.0


From eb694e99f250747c54c70875de7f2611928d9e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:38 +0000
Subject: [PATCH 54/57] fix: bound the nesting M_xml_read accepts

---
 formats/xml/m_xml_reader.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/formats/xml/m_xml_reader.c b/formats/xml/m_xml_reader.c
index 12fd6ee..0bd5afe 100644
--- a/formats/xml/m_xml_reader.c
+++ b/formats/xml/m_xml_reader.c
@@ -29,6 +29,10 @@
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
+/*! Deepest nesting of elements accepted. Elements are written, searched and destroyed by recursion, so a
+ *  document that could nest without limit would exhaust the stack of whoever handles it. */
+#define M_XML_MAX_DEPTH 1024
+
 /*! Identify the various tags we can parse */
 typedef enum {
 	M_XML_TAG_PROCESSING_INSTRUCTION = 1,
@@ -710,6 +714,8 @@ M_xml_node_t *M_xml_read(const char *data, size_t data_len, M_uint32 flags, size
 {
 	M_xml_node_t  *doc;
 	M_xml_node_t  *curr_level;
+	M_xml_node_t  *prev_level;
+	size_t         depth       = 0;
 	M_xml_error_t  myerror;
 	size_t         myerror_line;
 	size_t         myerror_pos;
@@ -759,12 +765,27 @@ M_xml_node_t *M_xml_read(const char *data, size_t data_len, M_uint32 flags, size
 
 		if (data[i] == '<') {
 			/* Parse <?XXX?>, <!--XXX-->, <XXX>, <XXX/>, </XXX>, <![CDATA[XXX]]> */
-			retval = M_xml_read_tag(&curr_level, data+i, data_len-i, flags, error);
+			prev_level = curr_level;
+			retval     = M_xml_read_tag(&curr_level, data+i, data_len-i, flags, error);
 			if (retval == 0) {
 				*error_pos = i;
 				M_xml_node_destroy(doc);
 				return NULL;
 			}
+
+			if (curr_level != prev_level) {
+				if (M_xml_node_parent(curr_level) == prev_level) {
+					depth++;
+				} else {
+					depth--;
+				}
+			}
+			if (depth > M_XML_MAX_DEPTH) {
+				*error     = M_XML_ERROR_GENERIC;
+				*error_pos = i;
+				M_xml_node_destroy(doc);
+				return NULL;
+			}
 			i += (retval - 1);
 		} else {
 			/* Parse text up to next '<' */
-- 
2.43.0


From 3b20491c7c709058c267211d52563395b6f93a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:48 +0000
Subject: [PATCH 55/57] fix: read HTTP chunks in a loop, not one recursive call
 each

---
 formats/http/m_http_reader.c | 59 ++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index fc77de6..0a5a417 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -812,42 +812,43 @@ static M_http_error_t M_http_read_chunked(M_http_reader_t *httpr, M_parser_t *pa
 	M_http_error_t res       = M_HTTP_ERROR_SUCCESS;
 	M_bool         full_read = M_FALSE;
 
-	/* Read the start of the chunk. */
-	if (httpr->rstep == M_HTTP_READER_STEP_CHUNK_START) {
-		res = M_http_read_chunk_start(httpr, parser, &full_read);
+	/* Go around once for every chunk. */
+	while (httpr->rstep == M_HTTP_READER_STEP_CHUNK_START || httpr->rstep == M_HTTP_READER_STEP_CHUNK_DATA) {
+		/* Read the start of the chunk. */
+		if (httpr->rstep == M_HTTP_READER_STEP_CHUNK_START) {
+			res = M_http_read_chunk_start(httpr, parser, &full_read);
 
-		if (res != M_HTTP_ERROR_SUCCESS || !full_read)
-			goto done;
-
-		httpr->rstep = M_HTTP_READER_STEP_CHUNK_DATA;
-	}
-
-	if (httpr->rstep == M_HTTP_READER_STEP_CHUNK_DATA) {
-		res = M_http_read_chunk_data(httpr, parser, &full_read);
+			if (res != M_HTTP_ERROR_SUCCESS || !full_read)
+				goto done;
 
-		if (res != M_HTTP_ERROR_SUCCESS || !full_read)
-			goto done;
+			httpr->rstep = M_HTTP_READER_STEP_CHUNK_DATA;
+		}
 
-		if (httpr->body_len == 0) {
-			httpr->rstep  = M_HTTP_READER_STEP_TRAILER;
-			/* Reset the header len because we'll use it for the trailer.
-			 * We're reading trailing header after all. */
-			httpr->header_len = 0;
+		if (httpr->rstep == M_HTTP_READER_STEP_CHUNK_DATA) {
+			res = M_http_read_chunk_data(httpr, parser, &full_read);
 
-			res = httpr->cbs.chunk_data_finished_func(httpr->thunk);
-			if (res != M_HTTP_ERROR_SUCCESS) {
+			if (res != M_HTTP_ERROR_SUCCESS || !full_read)
 				goto done;
-			}
-		} else {
-			/* If this isn't the last chunk start reading the next one. */
-			httpr->rstep = M_HTTP_READER_STEP_CHUNK_START;
-			httpr->part_idx++;
 
-			res = httpr->cbs.chunk_data_done_func(httpr->part_idx, httpr->thunk);
-			if (res != M_HTTP_ERROR_SUCCESS)
-				goto done;
+			if (httpr->body_len == 0) {
+				httpr->rstep  = M_HTTP_READER_STEP_TRAILER;
+				/* Reset the header len because we'll use it for the trailer.
+				 * We're reading trailing header after all. */
+				httpr->header_len = 0;
+
+				res = httpr->cbs.chunk_data_finished_func(httpr->thunk);
+				if (res != M_HTTP_ERROR_SUCCESS) {
+					goto done;
+				}
+			} else {
+				/* If this isn't the last chunk start reading the next one. */
+				httpr->rstep = M_HTTP_READER_STEP_CHUNK_START;
+				httpr->part_idx++;
 
-			return M_http_read_chunked(httpr, parser);
+				res = httpr->cbs.chunk_data_done_func(httpr->part_idx, httpr->thunk);
+				if (res != M_HTTP_ERROR_SUCCESS)
+					goto done;
+			}
 		}
 	}
 
-- 
2.43.0


From 378b19b4da6721db683ff376aba973f7904c21d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:59 +0000
Subject: [PATCH 56/57] fix: report a failed flush of buffered writes when a
 file is read or positioned

---
 base/fs/m_fs_file.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/base/fs/m_fs_file.c b/base/fs/m_fs_file.c
index e9e2b4a..ba897b5 100644
--- a/base/fs/m_fs_file.c
+++ b/base/fs/m_fs_file.c
@@ -83,8 +83,12 @@ M_fs_error_t M_fs_file_read(M_fs_file_t *fd, unsigned char *buf, size_t buf_len,
 		/* flush the write buf because location in the file will have
 		 * moved and writes can't happen at the new location. This also
 		 * invalidates the read buffer since the read location may have changed. */
-		if (M_buf_len(fd->write_buf) > 0)
-			M_fs_file_sync(fd, M_FS_FILE_SYNC_BUFFER);
+		if (M_buf_len(fd->write_buf) > 0) {
+			res = M_fs_file_sync(fd, M_FS_FILE_SYNC_BUFFER);
+			if (res != M_FS_ERROR_SUCCESS) {
+				return res;
+			}
+		}
 
 		/* If we can read from the user buffer do so. */
 		if (M_buf_len(fd->read_buf) >= buf_len) {
@@ -258,6 +262,8 @@ M_fs_error_t M_fs_file_write_bytes(const char *path, const unsigned char *buf, s
 
 M_fs_error_t M_fs_file_seek(M_fs_file_t *fd, M_int64 offset, M_fs_file_seek_t from)
 {
+	M_fs_error_t res;
+
 	if (fd == NULL)
 		return M_FS_ERROR_INVALID;
 
@@ -267,8 +273,12 @@ M_fs_error_t M_fs_file_seek(M_fs_file_t *fd, M_int64 offset, M_fs_file_seek_t fr
 	/* flush the write buf because location in the file will have
 	 * moved and writes can't happen at the new location. This will
 	 * kill the write buf. */
-	if (M_buf_len(fd->write_buf) > 0)
-		M_fs_file_sync(fd, M_FS_FILE_SYNC_BUFFER);
+	if (M_buf_len(fd->write_buf) > 0) {
+		res = M_fs_file_sync(fd, M_FS_FILE_SYNC_BUFFER);
+		if (res != M_FS_ERROR_SUCCESS) {
+			return res;
+		}
+	}
 
 	/* If we're seeking ahead from the current position, and the destination is still inside
 	 * our read buffer, just drop bytes from the read buffer and update the read offset.
-- 
2.43.0


From 3bee343fe30d122e11a9f01b17f050febbb89e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:19 +0000
Subject: [PATCH 57/57] fix: report data that could not be written when copying
 a file

---
 base/fs/m_fs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/fs/m_fs.c b/base/fs/m_fs.c
index 6a3e1ea..6fd802d 100644
--- a/base/fs/m_fs.c
+++ b/base/fs/m_fs.c
@@ -274,6 +274,10 @@ static M_fs_error_t M_fs_copy_file(const char *path_old, const char *path_new, M
 		}
 	}
 	M_fs_file_close(fd_old);
+	/* Writes are buffered, close can't report that what is left could not be written. */
+	if (res == M_FS_ERROR_SUCCESS) {
+		res = M_fs_file_sync(fd_new, M_FS_FILE_SYNC_BUFFER);
+	}
 	M_fs_file_close(fd_new);
 	if (res != M_FS_ERROR_SUCCESS) {
 		return res;
-- 
2.43.0

