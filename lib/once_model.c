/* pthread_once for the encoding: a single thread runs the initialiser on the first call only */
int pthread_once(int *once, void (*init)(void)) { if (!*once) { *once = 1; init(); } return 0; }
