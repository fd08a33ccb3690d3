#ifndef _LIBU_CONF_H_
#define _LIBU_CONF_H_
#define OS_UNIX 1
#define OS_LINUX 1
#define U_PATH_SEPARATOR '/'
#define LIBU_VERSION "2.3.0rc3"
#define HAVE_LONG_DOUBLE 1
#define HAVE_LONG_LONG 1
#define HAVE_INTMAX_T 1
#define HAVE__BOOL 1
#define HAVE_FLOAT__COMPLEX 1
#define HAVE_DOUBLE__COMPLEX 1
#define HAVE_LONG_DOUBLE__COMPLEX 1
#define HAVE_PID_T 1
#define HAVE_SSIZE_T 1
#define HAVE_SOCKLEN_T 1
#define HAVE_IN_ADDR_T 1
#define HAVE_STRUCT_RUSAGE 1
#define HAVE_TCP_NODELAY 1
#define HAVE_INET_ADDRSTRLEN 1
#define HAVE_SO_BROADCAST 1
#define HAVE_MAP_FIXED 1
#define HAVE_DAEMON 1
#define HAVE_SETSOCKOPT 1
#define HAVE_GETSOCKOPT 1
#define HAVE_GETPID 1
#define HAVE_LINK 1
#define HAVE_UNLINK 1
#define HAVE_SLEEP 1
#define HAVE_SYSCONF 1
#define HAVE_GETPAGESIZE 1
#define HAVE_FORK 1
#define HAVE_SETENV 1
#define HAVE_MMAP 1
#define HAVE_FCNTL 1
#define HAVE_STRERROR_R 1
#define HAVE_STRTOD 1
#define HAVE_GETTIMEOFDAY 1
#define HAVE_SYSLOG 1
#define HAVE_STRTOUMAX 1
#define HAVE_GETADDRINFO 1
#define HAVE_UNAME 1
#define HAVE_WAIT3 1
#define HAVE_WAIT 1
#define HAVE_SIGACTION 1
#define HAVE_ISFINITE 1
#define HAVE_COMPLEX 1
#define HAVE_UNISTD 1
#define HAVE_STDLIB 1
#define HAVE_PATHS 1
#define HAVE_SYSUIO 1
#define HAVE_STRINGS 1
#define HAVE_SYS_SOCKET 1
#define HAVE_NETINET_IN 1
#define HAVE_NETINET_TCP 1
#define HAVE_OPTARG 1
#define HAVE_OPTIND 1
#define HAVE_STRUCT_SOCKADDR_IN6 1
#define HAVE_STRUCT_SOCKADDR_UN 1
#define HAVE_NETINET_SCTP 1
#endif
