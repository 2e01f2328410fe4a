// [bytes, threads] = vf_mem (): bytes of memory in use by the process's allocator, and its number of threads
#include <octave/oct.h>
#include <malloc.h>
#include <dirent.h>

DEFUN_DLD (vf_mem, args, nargout, "memory in use")
{
  struct mallinfo2 m = mallinfo2 ();
  int n = 0;
  if (DIR *d = opendir ("/proc/self/task"))
    {
      while (struct dirent *e = readdir (d))
        n += e->d_name[0] != '.';
      closedir (d);
    }
  return ovl (double (m.uordblks + m.hblkhd), double (n));
}
