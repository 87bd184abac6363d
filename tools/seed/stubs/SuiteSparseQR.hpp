// SuiteSparse is not installed here; see Eigen/SPQRSupport beside this file.
#pragma once
#define SPQR_ORDERING_COLAMD 5
