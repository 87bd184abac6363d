// SuiteSparse is not installed here; see Eigen/SPQRSupport beside this file.
#pragma once
