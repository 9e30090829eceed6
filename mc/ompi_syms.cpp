// Storage whose addresses are the Open MPI predefined handles (mpi.h only takes addresses).
extern "C" {
#define O(x) char x[512] __attribute__((aligned(64)));
O(ompi_mpi_comm_world) O(ompi_mpi_comm_self) O(ompi_mpi_comm_null) O(ompi_mpi_group_null) O(ompi_mpi_group_empty)
O(ompi_request_null) O(ompi_mpi_info_null) O(ompi_mpi_info_env) O(ompi_mpi_errhandler_null) O(ompi_mpi_errors_are_fatal) O(ompi_mpi_errors_return)
O(ompi_mpi_op_null) O(ompi_mpi_op_sum) O(ompi_mpi_op_max) O(ompi_mpi_op_min) O(ompi_mpi_op_prod) O(ompi_mpi_op_land) O(ompi_mpi_op_lor)
O(ompi_mpi_op_band) O(ompi_mpi_op_bor) O(ompi_mpi_op_bxor) O(ompi_mpi_op_lxor) O(ompi_mpi_op_maxloc) O(ompi_mpi_op_minloc)
O(ompi_mpi_datatype_null) O(ompi_mpi_char) O(ompi_mpi_byte) O(ompi_mpi_int) O(ompi_mpi_long) O(ompi_mpi_float) O(ompi_mpi_double)
O(ompi_mpi_unsigned) O(ompi_mpi_unsigned_long) O(ompi_mpi_long_int) O(ompi_mpi_short) O(ompi_mpi_signed_char) O(ompi_mpi_unsigned_char)
O(ompi_mpi_long_long_int) O(ompi_mpi_double_int) O(ompi_mpi_2int) O(ompi_mpi_float_int) O(ompi_mpi_unsigned_short) O(ompi_mpi_long_double)
O(ompi_mpi_int64_t) O(ompi_mpi_int32_t) O(ompi_mpi_uint64_t) O(ompi_mpi_uint32_t) O(ompi_mpi_aint) O(ompi_mpi_packed)
O(ompi_mpi_real) O(ompi_mpi_real4) O(ompi_mpi_real8) O(ompi_mpi_dblprec) O(ompi_mpi_integer) O(ompi_mpi_integer4) O(ompi_mpi_integer8) O(ompi_mpi_logical) O(ompi_mpi_character)
int MPIR_F08_MPI_IN_PLACE;
}
