/* A program around the library, built with ThreadSanitizer: does what it is told on standard input, one command a line,
 * and answers with the result. Nothing but thread creation and joining orders its threads. */
#include "openelp/openelp.h"
#include "proxy_client.h"
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static struct proxy_handle ph;
static pthread_t acceptor, talker, connector;
static int serving, talking, connecting, words;
static struct proxy_client_handle pc;
static char pc_host[256], pc_port[16], pc_call[64], pc_pass[64];
static void *serve(void *p) { (void)p; while (proxy_process(&ph) >= 0) ; return NULL; }
static void *talk(void *p) { int i; (void)p; for (i = 0; i < words; i++) { proxy_log(&ph, LOG_LEVEL_INFO, "the application says %d\n", i); usleep(200); } return NULL; }
static void *conn(void *p) { (void)p; return (void *)(long)proxy_client_connect(&pc); }
int main(void) {
	char line[4096];
	setvbuf(stdout, NULL, _IONBF, 0);
	while (fgets(line, sizeof line, stdin)) {
		char *nl = strchr(line, '\n'); int r = 0; if (nl) *nl = 0;
		if (!strcmp(line, "init")) r = proxy_init(&ph);
		else if (!strncmp(line, "level ", 6)) proxy_log_level(&ph, atoi(line + 6));
		else if (!strncmp(line, "log ", 4)) r = proxy_log_select_medium(&ph, LOG_MEDIUM_FILE, line + 4);
		else if (!strncmp(line, "load ", 5)) r = proxy_load_conf(&ph, line + 5);
		else if (!strcmp(line, "open")) r = proxy_open(&ph);
		else if (!strcmp(line, "start")) r = proxy_start(&ph);
		else if (!strcmp(line, "serve")) { r = -pthread_create(&acceptor, NULL, serve, NULL); serving = r == 0; }
		else if (!strncmp(line, "talk ", 5)) { if (talking) pthread_join(talker, NULL); words = atoi(line + 5); r = -pthread_create(&talker, NULL, talk, NULL); talking = r == 0; }
		else if (!strcmp(line, "drop")) proxy_drop(&ph);
		else if (!strcmp(line, "update")) proxy_update_registration(&ph);
		else if (!strcmp(line, "shutdown")) { proxy_shutdown(&ph); if (serving) { pthread_join(acceptor, NULL); serving = 0; } }
		else if (!strcmp(line, "close")) { if (talking) { pthread_join(talker, NULL); talking = 0; } proxy_close(&ph); }
		else if (!strcmp(line, "free")) proxy_free(&ph);
		else if (!strncmp(line, "cinit ", 6)) { r = sscanf(line + 6, "%255s %15s %63s %63s", pc_host, pc_port, pc_call, pc_pass) == 4 ? proxy_client_init(&pc) : -1000; pc.host_addr = pc_host; pc.host_port = pc_port; pc.callsign = pc_call; pc.password = pc_pass; }
		else if (!strcmp(line, "cconnect")) { r = -pthread_create(&connector, NULL, conn, NULL); connecting = r == 0; }
		else if (!strcmp(line, "cdisconnect")) proxy_client_disconnect(&pc);
		else if (!strcmp(line, "cjoin")) { void *v = NULL; if (connecting) pthread_join(connector, &v); connecting = 0; r = (int)(long)v; }
		else if (!strcmp(line, "cfree")) proxy_client_free(&pc);
		else if (!strcmp(line, "quit")) break;
		else r = -1000;
		printf("%d\n", r);
	}
	return 0;
}
