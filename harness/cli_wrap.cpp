// Linked into the command-line tool: tells where its servers listen and keeps
// the registrar's log out of /var/log. Link with --wrap=listen,--wrap=fopen.
#include <netinet/in.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/socket.h>
extern "C" {
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) {
  const char *log = getenv("VH_LOG");
  return __real_fopen(log && !strncmp(p, "/var/log/", 9) ? log : p, m);
}
int __real_listen(int, int);
int __wrap_listen(int fd, int n) {
  int rc = __real_listen(fd, n);
  const char *file = getenv("VH_PORTFILE");
  if (rc == 0 && file) {
    sockaddr_in a{};
    socklen_t l = sizeof a;
    getsockname(fd, (sockaddr *)&a, &l);
    std::string t = std::string(file) + ".tmp";
    if (FILE *f = __real_fopen(t.c_str(), "w")) {
      fprintf(f, "%d\n", ntohs(a.sin_port));
      fclose(f);
      rename(t.c_str(), file);
    }
  }
  return rc;
}
}
