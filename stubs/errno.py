ENOENT = 2
ESRCH = 3
EINTR = 4
EACCES = 13
EEXIST = 17
EPERM = 1
EINVAL = 22
EAGAIN = 11
EBADF = 9
__vp_open__ = 'errno'
