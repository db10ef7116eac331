#pragma once

#define HAVE_GDAL

#define HAVE_GRIBAPI

#define HAVE_HRIT

#define HAVE_MAGICKPP

#define HAVE_NETCDF

#define HAVE_STDINT_H

#define MSAT_DEFAULT_INSTITUTION "ARPA-SIM"

#define MSAT_HAVE_GDAL

#define MSAT_HAVE_HRIT

#define MSAT_HAVE_MAGICKPP

#define MSAT_HAVE_NETCDF

#define PACKAGE_STRING "meteosatlib 1.36"

#define PACKAGE_VERSION "1.36"

