#pragma once
// Both explicit solvers of the shallow water problem.
#include "mesh.hpp"
#ifdef OWN_FUNCTIONS  // user-supplied initial/source functions are configuration: the harness supplies them
#define ic_q repo_ic_q
#define source_q repo_source_q
#include "problem/SWE/swe_definitions.hpp"
#include "problem/SWE/problem_function_files/swe_initial_condition_functions.hpp"
#include "problem/SWE/problem_function_files/swe_source_functions.hpp"
#undef ic_q
#undef source_q
namespace SWE {
StatVector<double, SWE::n_variables> ic_q(const double t, const Point<2>& pt);
StatVector<double, SWE::n_variables> source_q(const double t, const Point<2>& pt);
}
#endif
#include "problem/SWE/discretization_RKDG/rkdg_swe_problem.hpp"
#include "problem/SWE/discretization_RKDG/kernels_preprocessor/rkdg_swe_kernels_preprocessor.hpp"
#include "problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_kernels_processor.hpp"
#include "problem/SWE/discretization_RKDG/kernels_preprocessor/rkdg_swe_pre_serial.hpp"
#include "problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_serial_step.hpp"
#include "problem/SWE/discretization_EHDG/ehdg_swe_problem.hpp"
#include "problem/SWE/discretization_EHDG/kernels_preprocessor/ehdg_swe_kernels_preprocessor.hpp"
#include "problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_kernels_processor.hpp"
#include "problem/SWE/discretization_EHDG/kernels_preprocessor/ehdg_swe_pre_serial.hpp"
#include "problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_serial_step.hpp"
#ifdef USE_IHDG
#include "problem/SWE/discretization_IHDG/ihdg_swe_problem.hpp"
#include "problem/SWE/discretization_IHDG/kernels_preprocessor/ihdg_swe_kernels_preprocessor.hpp"
#include "problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_kernels_processor.hpp"
#include "problem/SWE/discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_serial.hpp"
#include "problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_serial_step.hpp"
#endif
#ifndef DISC
#define DISC RKDG
#endif
#ifndef PORD
#define PORD 1
#endif
#ifndef MESHN
#define MESHN mesh2
#endif
