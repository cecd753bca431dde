/* LD_PRELOAD: buffers what the simulator reads from and writes to regular files and its
   standard output, so that it does not cost a system call per character. */
#define _GNU_SOURCE
#include <errno.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#define NFD 64
#define BS (1 << 14)

static struct fdbuf
{
  int known;			/* 0: not seen, 1: buffered, 2: left alone */
  size_t wfill;			/* bytes waiting to be written */
  size_t rpos, rfill;		/* read ahead */
  char w[BS], r[BS];
} fds[NFD];

static void raw(int fd, const char *p, size_t n)
{
  while (n)
    {
      long r= syscall(SYS_write, fd, p, n);
      if (r < 0)
	{
	  if (errno == EINTR)
	    continue;
	  return;
	}
      p+= r;
      n-= r;
    }
}

static void wflush(int fd)
{
  size_t n= fds[fd].wfill;
  fds[fd].wfill= 0;
  if (n)
    raw(fd, fds[fd].w, n);
}

/* give back what was read ahead */
static void rdrop(int fd)
{
  if (fds[fd].rpos < fds[fd].rfill)
    syscall(SYS_lseek, fd, (long)fds[fd].rpos - (long)fds[fd].rfill, SEEK_CUR);
  fds[fd].rpos= fds[fd].rfill= 0;
}

static struct fdbuf *get(int fd)
{
  if (fd < 0 || fd >= NFD)
    return 0;
  if (fds[fd].known == 0)
    {
      struct stat st;
      if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode) && fd != 2)
	fds[fd].known= 1;
      else
	fds[fd].known= 2;
    }
  return (fds[fd].known == 1) ? &fds[fd] : 0;
}

ssize_t write(int fd, const void *p, size_t n)
{
  struct fdbuf *b= get(fd);
  if (!b)
    return syscall(SYS_write, fd, p, n);
  rdrop(fd);
  if (n > BS - b->wfill)
    wflush(fd);
  if (n > BS)
    {
      raw(fd, p, n);
      return n;
    }
  memcpy(b->w + b->wfill, p, n);
  b->wfill+= n;
  return n;
}

ssize_t read(int fd, void *p, size_t n)
{
  struct fdbuf *b= get(fd);
  if (!b)
    return syscall(SYS_read, fd, p, n);
  wflush(fd);
  if (b->rpos >= b->rfill)
    {
      long r;
      b->rpos= b->rfill= 0;
      r= syscall(SYS_read, fd, b->r, BS);
      if (r <= 0)
	return r;
      b->rfill= r;
    }
  if (n > b->rfill - b->rpos)
    n= b->rfill - b->rpos;
  memcpy(p, b->r + b->rpos, n);
  b->rpos+= n;
  return n;
}

int close(int fd)
{
  if (fd >= 0 && fd < NFD)
    {
      if (fds[fd].known == 1)
	wflush(fd);
      fds[fd].known= 0;
      fds[fd].rpos= fds[fd].rfill= 0;
    }
  return syscall(SYS_close, fd);
}

off_t lseek(int fd, off_t o, int wh)
{
  if (fd >= 0 && fd < NFD && fds[fd].known == 1)
    {
      wflush(fd);
      rdrop(fd);
    }
  return syscall(SYS_lseek, fd, o, wh);
}

static void all(void)
{
  int i;
  for (i= 0; i < NFD; i++)
    if (fds[i].known == 1)
      wflush(i);
}

__attribute__((destructor)) static void fini(void)
{
  all();
}

void _exit(int rc)
{
  all();
  syscall(SYS_exit_group, rc);
  __builtin_unreachable();
}
