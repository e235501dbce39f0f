/* Neutral definitions; a scenario overrides by defining HAVE_<hook> first. */
#ifndef HAVE_storage_idle
int env_storage_idle(void) { return 0; }
#endif
#ifndef HAVE_on_watch
void env_on_watch(int ep, int fd) { (void)ep; (void)fd; }
#endif
#ifndef HAVE_on_accept
void env_on_accept(int fd) { (void)fd; }
#endif
#ifndef HAVE_on_send
void env_on_send(int fd, const unsigned char *p, int n) { (void)fd; (void)p; (void)n; }
#endif
#ifndef HAVE_connect
int env_connect(int fd, uint32_t a, uint16_t p) { (void)fd; (void)a; (void)p; return 0; }
#endif
#ifndef HAVE_on_file_write
void env_on_file_write(long o, int n) { (void)o; (void)n; }
#endif
#ifndef HAVE_on_file_read
void env_on_file_read(long o, int n) { (void)o; (void)n; }
#endif
#ifndef HAVE_on_fsync
void env_on_fsync(void) { }
#endif
#ifndef HAVE_on_close
void env_on_close(int fd) { (void)fd; }
#endif
#ifndef HAVE_on_exit
void env_on_exit(int code) { (void)code; OBL(no_unexpected_exit, 0); }
#endif
#ifndef HAVE_on_recv_block
void env_on_recv_block(int fd) { (void)fd; OBL(no_blocking_receive, 0); }
#endif
#ifndef HAVE_on_pipe_write
void env_on_pipe_write(int p, const unsigned char *b, int n) { (void)p; (void)b; (void)n; }
#endif
#ifndef HAVE_on_print
void env_on_print(int err, const char *f) { (void)err; (void)f; }
#endif
#ifndef HAVE_on_thread
void env_on_thread(int i) { (void)i; }
#endif
#ifndef HAVE_on_line
void env_on_line(const char *l) { (void)l; }
#endif
#ifndef HAVE_on_poll
void env_on_poll(int fd, int ev) { (void)fd; (void)ev; }
#endif
#ifndef HAVE_on_recv_buf
void env_on_recv_buf(int fd, void *b) { (void)fd; (void)b; }
#endif
