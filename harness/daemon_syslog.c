// stands in for the system's log: messages go to the file named by VP_SYSLOG
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
void vpd_openlog(const char *ident, int option, int facility) { (void)ident; (void)option; (void)facility; }
void vpd_closelog(void) { }
void vpd_vsyslog(int pri, const char *fmt, va_list ap) {
	const char *p = getenv("VP_SYSLOG"); char b[4096]; int n = vsnprintf(b, sizeof b - 1, fmt, ap); (void)pri;
	if (n < 0) return; if (n > (int)sizeof b - 2) n = sizeof b - 2; if (!n || b[n - 1] != '\n') b[n++] = '\n';
	if (p) { int fd = open(p, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600); if (fd >= 0) { (void)!write(fd, b, n); close(fd); } }
}
void vpd_syslog(int pri, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vpd_vsyslog(pri, fmt, ap); va_end(ap); }
