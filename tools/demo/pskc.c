/* Minimal raw NSCA-ng client: pskc PORT IDENTITY KEY ACTION...
 * Actions: s:TEXT  send TEXT (escapes \n \r \0 \t \\)   r  read and print a line
 *          w:SEC   sleep   e  expect EOF   x  close the socket abruptly   c  close notify
 *          f:N:C   send N copies of character C  n  expect silence for 1.5 s
 *          p:TEXT  announce TEXT with PUSH, print the answer, send TEXT
 *          R:N:TEXT  read N lines and say whether all of them are TEXT */
#include <arpa/inet.h>
#include <openssl/ssl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <unistd.h>
static const char *id, *key;
static unsigned cb(SSL *s, const char *h, char *i, unsigned il, unsigned char *p, unsigned pl)
{
	(void)s; (void)h;
	snprintf(i, il, "%s", id);
	unsigned n = strlen(key); if (n > pl) n = pl;
	memcpy(p, key, n);
	return n;
}
int main(int c, char **v)
{
	struct sockaddr_in a = { .sin_family = AF_INET, .sin_port = htons(atoi(v[1])) };
	inet_pton(AF_INET, "127.0.0.1", &a.sin_addr);
	signal(SIGPIPE, SIG_IGN);
	alarm(60);
	id = v[2]; key = v[3];
	int fd = socket(AF_INET, SOCK_STREAM, 0);
	if (connect(fd, (void *)&a, sizeof a)) { perror("connect"); return 3; }
	struct timeval tv = { 20, 0 };
	setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
	SSL_CTX *x = SSL_CTX_new(TLS_client_method());
	SSL_CTX_set_max_proto_version(x, TLS1_2_VERSION);
	SSL_CTX_set_cipher_list(x, "PSK");
	SSL_CTX_set_psk_client_callback(x, cb);
	SSL *s = SSL_new(x);
	SSL_set_fd(s, fd);
	if (SSL_connect(s) != 1) { puts("NOCONNECT"); return 4; }
	for (int i = 4; i < c; i++) {
		char *t = v[i];
		if (t[0] == 's' || t[0] == 'p') {
			char *b = malloc(strlen(t) + 1); int n = 0;
			for (t += 2; *t; t++)
				if (*t == '\\') { t++; b[n++] = *t == 'n' ? '\n' : *t == 'r' ? '\r' : *t == '0' ? 0 : *t == 't' ? '\t' : *t; }
				else b[n++] = *t;
			if (v[i][0] == 'p') { /* announce it first */
				char h[64], ch;
				sprintf(h, "PUSH %d\r\n", n);
				SSL_write(s, h, strlen(h));
				while (SSL_read(s, &ch, 1) == 1 && ch != '\n') if (ch != '\r') putchar(ch);
				putchar('\n'); fflush(stdout);
			}
			if (SSL_write(s, b, n) != n) puts("SENDFAIL");
		} else if (t[0] == 'f') {
			int n = atoi(t + 2); char *b = malloc(n + 1);
			memset(b, t[strlen(t) - 1], n);
			if (SSL_write(s, b, n) != n) puts("SENDFAIL");
		} else if (t[0] == 'r') {
			char ch; int n = 0, r;
			while ((r = SSL_read(s, &ch, 1)) == 1 && ch != '\n') { if (ch != '\r') putchar(ch); n++; }
			if (r != 1) fputs(SSL_get_error(s, r) == SSL_ERROR_ZERO_RETURN ? "<EOF>" : "<ERR>", stdout);
			putchar('\n'); fflush(stdout);
		} else if (t[0] == 'n') {
			struct timeval q = { 1, 500000 }; char ch;
			setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &q, sizeof q);
			puts(SSL_read(s, &ch, 1) == 1 ? "NOISE" : "SILENCE");
			setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
		} else if (t[0] == 'R') { /* R:N:TEXT read N lines, say whether all equal TEXT */
			int n = atoi(t + 2), bad = 0; char *w = strchr(t + 2, ':') + 1, l[4096];
			for (int k = 0; k < n && !bad; k++) {
				int m = 0; char ch;
				while (m < 4095 && SSL_read(s, &ch, 1) == 1 && ch != '\n') if (ch != '\r') l[m++] = ch;
				l[m] = 0;
				bad = strcmp(l, w) != 0;
			}
			puts(bad ? "DIFFERENT" : "SAME");
		} else if (t[0] == 'e') {
			char ch; puts(SSL_read(s, &ch, 1) == 1 ? "DATA" : "EOF");
		} else if (t[0] == 'w') usleep((useconds_t)(atof(t + 2) * 1e6));
		else if (t[0] == 'c') SSL_shutdown(s);
		else if (t[0] == 'x') { struct linger l = { 1, 0 }; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); close(fd); return 0; }
	}
	SSL_shutdown(s);
	close(fd);
	return 0;
}
