# libc entry points redirected to the simulator (objcopy --redefine-sym NAME=sim_NAME); undefined ones are skipped
SEAMS="fopen fopen64 freopen freopen64 fdopen open open64 __open_2 __open64_2 openat openat64 __openat_2 __openat64_2 creat creat64
close read __read_chk pread pread64 write pwrite lseek lseek64 stat stat64 fstat fstat64 lstat lstat64 access
malloc calloc realloc reallocarray free strdup __strdup strndup __strndup asprintf __asprintf_chk vasprintf __vasprintf_chk
_exit _Exit getline getdelim __getdelim posix_memalign aligned_alloc open_memstream
time gettimeofday clock_gettime timespec_get ftime
unlink unlinkat remove rename renameat mkdir rmdir truncate ftruncate chmod chown link symlink mkstemp tmpfile tmpfile64
system popen execl execlp execv execvp execve fork vfork kill posix_spawn posix_spawnp
rand random srand srandom drand48 getpid getppid arc4random getrandom
sleep usleep nanosleep mmap mmap64 munmap"
