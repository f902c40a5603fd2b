#include "../config/config.h"
#undef HAVE_POSIX_AIO
#undef HAVE_AIO_INIT
