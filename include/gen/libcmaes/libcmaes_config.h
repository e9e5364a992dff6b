/* libcmaes_config.h.  Generated from libcmaes_config.h.in by configure.  */
/* libcmaes_config.h.in.  Generated from configure.ac by autoheader.  */

/* define if the Boost::Python library is available */
#define HAVE_BOOST_PYTHON

/* define if the compiler supports basic C++11 syntax */
/* #undef HAVE_CXX11 */

/* debug */
/* #undef HAVE_DEBUG */

/* Define to 1 if you have the <dlfcn.h> header file. */
#define HAVE_DLFCN_H 1

/* google glog requested */
/* #undef HAVE_GLOG */

/* Define to 1 if you have the <inttypes.h> header file. */
#define HAVE_INTTYPES_H 1

/* define if you have google gflags library */
/* #undef HAVE_LIB_GFLAGS */

/* define if you have google glog library */
/* #undef HAVE_LIB_GLOG */

/* Define to 1 if you have the <memory.h> header file. */
#define HAVE_MEMORY_H 1

/* Define to 1 if you have the <stdint.h> header file. */
#define HAVE_STDINT_H 1

/* Define to 1 if you have the <stdlib.h> header file. */
#define HAVE_STDLIB_H 1

/* Define to 1 if you have the <strings.h> header file. */
#define HAVE_STRINGS_H 1

/* Define to 1 if you have the <string.h> header file. */
#define HAVE_STRING_H 1

/* surrog */
#define HAVE_SURROG 1

/* Define to 1 if you have the <sys/stat.h> header file. */
#define HAVE_SYS_STAT_H 1

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TYPES_H 1

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H 1

/* Name of package */
#define PACKAGE "libcmaes"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT ""

/* Define to the full name of this package. */
#define PACKAGE_NAME "libcmaes"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "libcmaes 0.9.5"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "libcmaes"

/* Define to the home page for this package. */
#define PACKAGE_URL ""

/* Define to the version of this package. */
#define PACKAGE_VERSION ""

/* Define to 1 if you have the ANSI C header files. */
#define STDC_HEADERS 1

/* Version number of package */
#define VERSION ""
