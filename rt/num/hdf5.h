// Stand-in for HDF5 (absent here): names only, no file is written.
#pragma once
#include <cstdint>
typedef int64_t hid_t; typedef int herr_t; typedef unsigned long long hsize_t;
enum { H5T_NATIVE_INT = 1, H5T_NATIVE_FLOAT, H5T_NATIVE_DOUBLE, H5T_NATIVE_LDOUBLE, H5P_DATASET_XFER, H5P_FILE_ACCESS, H5P_DEFAULT, H5FD_MPIO_COLLECTIVE, H5FD_MPIO_INDEPENDENT, H5S_ALL, H5S_NULL, H5S_SELECT_SET, H5F_ACC_TRUNC, H5F_ACC_RDONLY, H5F_ACC_RDWR };
template <class... A> inline hid_t fsx_h5(A...) { fsx_fail("no HDF5 here"); }
#define H5Pcreate fsx_h5
#define H5Pclose fsx_h5
#define H5Pset_dxpl_mpio fsx_h5
#define H5Pset_fapl_mpio fsx_h5
#define H5Dwrite fsx_h5
#define H5Dread fsx_h5
#define H5Dopen fsx_h5
#define H5Dopen2 fsx_h5
#define H5Dcreate fsx_h5
#define H5Dclose fsx_h5
#define H5Fclose fsx_h5
#define H5Fcreate fsx_h5
#define H5Fopen fsx_h5
#define H5Fflush fsx_h5
#define H5Sclose fsx_h5
#define H5Gcreate fsx_h5
#define H5Gclose fsx_h5
#define H5Gopen fsx_h5
#define H5Lexists fsx_h5
#define H5Screate_simple fsx_h5
#define H5Sselect_hyperslab fsx_h5
