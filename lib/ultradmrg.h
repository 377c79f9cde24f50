// The library's headers without the MPI part (no MPI here; VERIF_MPI: with it, over the stand-in), in the order of qlmps/qlmps.h.
#ifndef VERIF_ULTRADMRG_H
#define VERIF_ULTRADMRG_H
#include "qlten/qlten.h"
#include "qlmps/case_params_parser.h"
#include "qlmps/site_vec.h"
#include "qlmps/one_dim_tn/mps_all.h"
#include "qlmps/one_dim_tn/mpo/mpo.h"
#include "qlmps/one_dim_tn/mpo/mpogen/mpogen.h"
#include "qlmps/algorithm/vmps/vmps_all.h"
#include "qlmps/algorithm/tdvp/tdvp_evolve_params.h"
#include "qlmps/algorithm/tdvp/two_site_update_finite_tdvp_impl.h"
#include "qlmps/algorithm/dmrg/dmrg.h"
#ifdef VERIF_MPI
#include "qlmps/algo_mpi/vmps/two_site_update_finite_vmps_mpi.h"
#include "qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi.h"
#include "qlmps/algo_mpi/dmrg/dmrg_mpi.h"
#endif
#include "qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h"
#ifdef VERIF_MPI
#include "qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi.h"
#endif
#include "qlmps/model_relevant/sites/model_site_base.h"
#include "qlmps/model_relevant/operators/operators_all.h"
#endif
