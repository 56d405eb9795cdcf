STUB(cublasAsumEx)
STUB(cublasAsumEx_64)
STUB(cublasAxpyEx)
STUB(cublasAxpyEx_64)
STUB(cublasCaxpy_v2)
STUB(cublasCaxpy_v2_64)
STUB(cublasCcopy_v2)
STUB(cublasCcopy_v2_64)
STUB(cublasCdgmm)
STUB(cublasCdgmm_64)
STUB(cublasCdotc_v2)
STUB(cublasCdotc_v2_64)
STUB(cublasCdotu_v2)
STUB(cublasCdotu_v2_64)
STUB(cublasCgbmv_v2)
STUB(cublasCgbmv_v2_64)
STUB(cublasCgeam)
STUB(cublasCgeam_64)
STUB(cublasCgelsBatched)
STUB(cublasCgemm3m)
STUB(cublasCgemm3mBatched)
STUB(cublasCgemm3mBatched_64)
STUB(cublasCgemm3mEx)
STUB(cublasCgemm3mEx_64)
STUB(cublasCgemm3mStridedBatched)
STUB(cublasCgemm3mStridedBatched_64)
STUB(cublasCgemm3m_64)
STUB(cublasCgemmBatched)
STUB(cublasCgemmBatched_64)
STUB(cublasCgemmEx)
STUB(cublasCgemmEx_64)
STUB(cublasCgemmStridedBatched)
STUB(cublasCgemmStridedBatched_64)
STUB(cublasCgemm_v2)
STUB(cublasCgemm_v2_64)
STUB(cublasCgemvBatched)
STUB(cublasCgemvBatched_64)
STUB(cublasCgemvStridedBatched)
STUB(cublasCgemvStridedBatched_64)
STUB(cublasCgemv_v2)
STUB(cublasCgemv_v2_64)
STUB(cublasCgeqrfBatched)
STUB(cublasCgerc_v2)
STUB(cublasCgerc_v2_64)
STUB(cublasCgeru_v2)
STUB(cublasCgeru_v2_64)
STUB(cublasCgetrfBatched)
STUB(cublasCgetriBatched)
STUB(cublasCgetrsBatched)
STUB(cublasChbmv_v2)
STUB(cublasChbmv_v2_64)
STUB(cublasChemm_v2)
STUB(cublasChemm_v2_64)
STUB(cublasChemv_v2)
STUB(cublasChemv_v2_64)
STUB(cublasCher2_v2)
STUB(cublasCher2_v2_64)
STUB(cublasCher2k_v2)
STUB(cublasCher2k_v2_64)
STUB(cublasCher_v2)
STUB(cublasCher_v2_64)
STUB(cublasCherk3mEx)
STUB(cublasCherk3mEx_64)
STUB(cublasCherkEx)
STUB(cublasCherkEx_64)
STUB(cublasCherk_v2)
STUB(cublasCherk_v2_64)
STUB(cublasCherkx)
STUB(cublasCherkx_64)
STUB(cublasChpmv_v2)
STUB(cublasChpmv_v2_64)
STUB(cublasChpr2_v2)
STUB(cublasChpr2_v2_64)
STUB(cublasChpr_v2)
STUB(cublasChpr_v2_64)
STUB(cublasCmatinvBatched)
STUB(cublasCopyEx)
STUB(cublasCopyEx_64)
STUB(cublasCrot_v2)
STUB(cublasCrot_v2_64)
STUB(cublasCrotg_v2)
STUB(cublasCscal_v2)
STUB(cublasCscal_v2_64)
STUB(cublasCsrot_v2)
STUB(cublasCsrot_v2_64)
STUB(cublasCsscal_v2)
STUB(cublasCsscal_v2_64)
STUB(cublasCswap_v2)
STUB(cublasCswap_v2_64)
STUB(cublasCsymm_v2)
STUB(cublasCsymm_v2_64)
STUB(cublasCsymv_v2)
STUB(cublasCsymv_v2_64)
STUB(cublasCsyr2_v2)
STUB(cublasCsyr2_v2_64)
STUB(cublasCsyr2k_v2)
STUB(cublasCsyr2k_v2_64)
STUB(cublasCsyr_v2)
STUB(cublasCsyr_v2_64)
STUB(cublasCsyrk3mEx)
STUB(cublasCsyrk3mEx_64)
STUB(cublasCsyrkEx)
STUB(cublasCsyrkEx_64)
STUB(cublasCsyrk_v2)
STUB(cublasCsyrk_v2_64)
STUB(cublasCsyrkx)
STUB(cublasCsyrkx_64)
STUB(cublasCtbmv_v2)
STUB(cublasCtbmv_v2_64)
STUB(cublasCtbsv_v2)
STUB(cublasCtbsv_v2_64)
STUB(cublasCtpmv_v2)
STUB(cublasCtpmv_v2_64)
STUB(cublasCtpsv_v2)
STUB(cublasCtpsv_v2_64)
STUB(cublasCtpttr)
STUB(cublasCtrmm_v2)
STUB(cublasCtrmm_v2_64)
STUB(cublasCtrmv_v2)
STUB(cublasCtrmv_v2_64)
STUB(cublasCtrsmBatched)
STUB(cublasCtrsmBatched_64)
STUB(cublasCtrsm_v2)
STUB(cublasCtrsm_v2_64)
STUB(cublasCtrsv_v2)
STUB(cublasCtrsv_v2_64)
STUB(cublasCtrttp)
STUB(cublasDasum_v2)
STUB(cublasDasum_v2_64)
STUB(cublasDaxpy_v2)
STUB(cublasDaxpy_v2_64)
STUB(cublasDcopy_v2)
STUB(cublasDcopy_v2_64)
STUB(cublasDdgmm)
STUB(cublasDdgmm_64)
STUB(cublasDdot_v2)
STUB(cublasDdot_v2_64)
STUB(cublasDgbmv_v2)
STUB(cublasDgbmv_v2_64)
STUB(cublasDgeam)
STUB(cublasDgeam_64)
STUB(cublasDgelsBatched)
STUB(cublasDgemmBatched)
STUB(cublasDgemmBatched_64)
STUB(cublasDgemmGroupedBatched)
STUB(cublasDgemmGroupedBatched_64)
STUB(cublasDgemmStridedBatched)
STUB(cublasDgemmStridedBatched_64)
STUB(cublasDgemm_v2_64)
STUB(cublasDgemvBatched)
STUB(cublasDgemvBatched_64)
STUB(cublasDgemvStridedBatched)
STUB(cublasDgemvStridedBatched_64)
STUB(cublasDgemv_v2)
STUB(cublasDgemv_v2_64)
STUB(cublasDgeqrfBatched)
STUB(cublasDger_v2)
STUB(cublasDger_v2_64)
STUB(cublasDgetrfBatched)
STUB(cublasDgetriBatched)
STUB(cublasDgetrsBatched)
STUB(cublasDmatinvBatched)
STUB(cublasDnrm2_v2)
STUB(cublasDnrm2_v2_64)
STUB(cublasDotEx)
STUB(cublasDotEx_64)
STUB(cublasDotcEx)
STUB(cublasDotcEx_64)
STUB(cublasDrot_v2)
STUB(cublasDrot_v2_64)
STUB(cublasDrotg_v2)
STUB(cublasDrotm_v2)
STUB(cublasDrotm_v2_64)
STUB(cublasDrotmg_v2)
STUB(cublasDsbmv_v2)
STUB(cublasDsbmv_v2_64)
STUB(cublasDscal_v2)
STUB(cublasDscal_v2_64)
STUB(cublasDspmv_v2)
STUB(cublasDspmv_v2_64)
STUB(cublasDspr2_v2)
STUB(cublasDspr2_v2_64)
STUB(cublasDspr_v2)
STUB(cublasDspr_v2_64)
STUB(cublasDswap_v2)
STUB(cublasDswap_v2_64)
STUB(cublasDsymm_v2)
STUB(cublasDsymm_v2_64)
STUB(cublasDsymv_v2)
STUB(cublasDsymv_v2_64)
STUB(cublasDsyr2_v2)
STUB(cublasDsyr2_v2_64)
STUB(cublasDsyr2k_v2)
STUB(cublasDsyr2k_v2_64)
STUB(cublasDsyr_v2)
STUB(cublasDsyr_v2_64)
STUB(cublasDsyrk_v2)
STUB(cublasDsyrk_v2_64)
STUB(cublasDsyrkx)
STUB(cublasDsyrkx_64)
STUB(cublasDtbmv_v2)
STUB(cublasDtbmv_v2_64)
STUB(cublasDtbsv_v2)
STUB(cublasDtbsv_v2_64)
STUB(cublasDtpmv_v2)
STUB(cublasDtpmv_v2_64)
STUB(cublasDtpsv_v2)
STUB(cublasDtpsv_v2_64)
STUB(cublasDtpttr)
STUB(cublasDtrmm_v2)
STUB(cublasDtrmm_v2_64)
STUB(cublasDtrmv_v2)
STUB(cublasDtrmv_v2_64)
STUB(cublasDtrsmBatched)
STUB(cublasDtrsmBatched_64)
STUB(cublasDtrsm_v2)
STUB(cublasDtrsm_v2_64)
STUB(cublasDtrsv_v2)
STUB(cublasDtrsv_v2_64)
STUB(cublasDtrttp)
STUB(cublasDzasum_v2)
STUB(cublasDzasum_v2_64)
STUB(cublasDznrm2_v2)
STUB(cublasDznrm2_v2_64)
STUB(cublasGemmBatchedEx)
STUB(cublasGemmBatchedEx_64)
STUB(cublasGemmEx)
STUB(cublasGemmEx_64)
STUB(cublasGemmGroupedBatchedEx)
STUB(cublasGemmGroupedBatchedEx_64)
STUB(cublasGemmStridedBatchedEx)
STUB(cublasGemmStridedBatchedEx_64)
STUB(cublasGetAtomicsMode)
STUB(cublasGetCudartVersion)
STUB(cublasGetEmulationStrategy)
STUB(cublasGetLoggerCallback)
STUB(cublasGetMathMode)
STUB(cublasGetMatrix)
STUB(cublasGetMatrixAsync)
STUB(cublasGetMatrixAsync_64)
STUB(cublasGetMatrix_64)
STUB(cublasGetProperty)
STUB(cublasGetSmCountTarget)
STUB(cublasGetStatusName)
STUB(cublasGetStatusString)
STUB(cublasGetVector)
STUB(cublasGetVectorAsync)
STUB(cublasGetVectorAsync_64)
STUB(cublasGetVector_64)
STUB(cublasIamaxEx)
STUB(cublasIamaxEx_64)
STUB(cublasIaminEx)
STUB(cublasIaminEx_64)
STUB(cublasIcamax_v2)
STUB(cublasIcamax_v2_64)
STUB(cublasIcamin_v2)
STUB(cublasIcamin_v2_64)
STUB(cublasIdamax_v2)
STUB(cublasIdamax_v2_64)
STUB(cublasIdamin_v2)
STUB(cublasIdamin_v2_64)
STUB(cublasIsamax_v2)
STUB(cublasIsamax_v2_64)
STUB(cublasIsamin_v2)
STUB(cublasIsamin_v2_64)
STUB(cublasIzamax_v2)
STUB(cublasIzamax_v2_64)
STUB(cublasIzamin_v2)
STUB(cublasIzamin_v2_64)
STUB(cublasLoggerConfigure)
STUB(cublasNrm2Ex)
STUB(cublasNrm2Ex_64)
STUB(cublasRotEx)
STUB(cublasRotEx_64)
STUB(cublasRotgEx)
STUB(cublasRotmEx)
STUB(cublasRotmEx_64)
STUB(cublasRotmgEx)
STUB(cublasSasum_v2)
STUB(cublasSasum_v2_64)
STUB(cublasSaxpy_v2)
STUB(cublasSaxpy_v2_64)
STUB(cublasScalEx)
STUB(cublasScalEx_64)
STUB(cublasScasum_v2)
STUB(cublasScasum_v2_64)
STUB(cublasScnrm2_v2)
STUB(cublasScnrm2_v2_64)
STUB(cublasScopy_v2)
STUB(cublasScopy_v2_64)
STUB(cublasSdgmm)
STUB(cublasSdgmm_64)
STUB(cublasSdot_v2)
STUB(cublasSdot_v2_64)
STUB(cublasSetAtomicsMode)
STUB(cublasSetEmulationStrategy)
STUB(cublasSetLoggerCallback)
STUB(cublasSetMatrix)
STUB(cublasSetMatrixAsync)
STUB(cublasSetMatrixAsync_64)
STUB(cublasSetMatrix_64)
STUB(cublasSetSmCountTarget)
STUB(cublasSetVector)
STUB(cublasSetVectorAsync)
STUB(cublasSetVectorAsync_64)
STUB(cublasSetVector_64)
STUB(cublasSetWorkspace_v2)
STUB(cublasSgbmv_v2)
STUB(cublasSgbmv_v2_64)
STUB(cublasSgeam)
STUB(cublasSgeam_64)
STUB(cublasSgelsBatched)
STUB(cublasSgemmBatched)
STUB(cublasSgemmBatched_64)
STUB(cublasSgemmEx)
STUB(cublasSgemmEx_64)
STUB(cublasSgemmGroupedBatched)
STUB(cublasSgemmGroupedBatched_64)
STUB(cublasSgemmStridedBatched)
STUB(cublasSgemmStridedBatched_64)
STUB(cublasSgemm_v2)
STUB(cublasSgemm_v2_64)
STUB(cublasSgemvBatched)
STUB(cublasSgemvBatched_64)
STUB(cublasSgemvStridedBatched)
STUB(cublasSgemvStridedBatched_64)
STUB(cublasSgemv_v2)
STUB(cublasSgemv_v2_64)
STUB(cublasSgeqrfBatched)
STUB(cublasSger_v2)
STUB(cublasSger_v2_64)
STUB(cublasSgetrfBatched)
STUB(cublasSgetriBatched)
STUB(cublasSgetrsBatched)
STUB(cublasSmatinvBatched)
STUB(cublasSnrm2_v2)
STUB(cublasSnrm2_v2_64)
STUB(cublasSrot_v2)
STUB(cublasSrot_v2_64)
STUB(cublasSrotg_v2)
STUB(cublasSrotm_v2)
STUB(cublasSrotm_v2_64)
STUB(cublasSrotmg_v2)
STUB(cublasSsbmv_v2)
STUB(cublasSsbmv_v2_64)
STUB(cublasSscal_v2)
STUB(cublasSscal_v2_64)
STUB(cublasSspmv_v2)
STUB(cublasSspmv_v2_64)
STUB(cublasSspr2_v2)
STUB(cublasSspr2_v2_64)
STUB(cublasSspr_v2)
STUB(cublasSspr_v2_64)
STUB(cublasSswap_v2)
STUB(cublasSswap_v2_64)
STUB(cublasSsymm_v2)
STUB(cublasSsymm_v2_64)
STUB(cublasSsymv_v2)
STUB(cublasSsymv_v2_64)
STUB(cublasSsyr2_v2)
STUB(cublasSsyr2_v2_64)
STUB(cublasSsyr2k_v2)
STUB(cublasSsyr2k_v2_64)
STUB(cublasSsyr_v2)
STUB(cublasSsyr_v2_64)
STUB(cublasSsyrk_v2)
STUB(cublasSsyrk_v2_64)
STUB(cublasSsyrkx)
STUB(cublasSsyrkx_64)
STUB(cublasStbmv_v2)
STUB(cublasStbmv_v2_64)
STUB(cublasStbsv_v2)
STUB(cublasStbsv_v2_64)
STUB(cublasStpmv_v2)
STUB(cublasStpmv_v2_64)
STUB(cublasStpsv_v2)
STUB(cublasStpsv_v2_64)
STUB(cublasStpttr)
STUB(cublasStrmm_v2)
STUB(cublasStrmm_v2_64)
STUB(cublasStrmv_v2)
STUB(cublasStrmv_v2_64)
STUB(cublasStrsmBatched)
STUB(cublasStrsmBatched_64)
STUB(cublasStrsm_v2)
STUB(cublasStrsm_v2_64)
STUB(cublasStrsv_v2)
STUB(cublasStrsv_v2_64)
STUB(cublasStrttp)
STUB(cublasSwapEx)
STUB(cublasSwapEx_64)
STUB(cublasUint8gemmBias)
STUB(cublasXerbla)
STUB(cublasZaxpy_v2)
STUB(cublasZaxpy_v2_64)
STUB(cublasZcopy_v2)
STUB(cublasZcopy_v2_64)
STUB(cublasZdgmm)
STUB(cublasZdgmm_64)
STUB(cublasZdotc_v2)
STUB(cublasZdotc_v2_64)
STUB(cublasZdotu_v2)
STUB(cublasZdotu_v2_64)
STUB(cublasZdrot_v2)
STUB(cublasZdrot_v2_64)
STUB(cublasZdscal_v2)
STUB(cublasZdscal_v2_64)
STUB(cublasZgbmv_v2)
STUB(cublasZgbmv_v2_64)
STUB(cublasZgeam)
STUB(cublasZgeam_64)
STUB(cublasZgelsBatched)
STUB(cublasZgemm3m)
STUB(cublasZgemm3m_64)
STUB(cublasZgemmBatched)
STUB(cublasZgemmBatched_64)
STUB(cublasZgemmStridedBatched)
STUB(cublasZgemmStridedBatched_64)
STUB(cublasZgemm_v2)
STUB(cublasZgemm_v2_64)
STUB(cublasZgemvBatched)
STUB(cublasZgemvBatched_64)
STUB(cublasZgemvStridedBatched)
STUB(cublasZgemvStridedBatched_64)
STUB(cublasZgemv_v2)
STUB(cublasZgemv_v2_64)
STUB(cublasZgeqrfBatched)
STUB(cublasZgerc_v2)
STUB(cublasZgerc_v2_64)
STUB(cublasZgeru_v2)
STUB(cublasZgeru_v2_64)
STUB(cublasZgetrfBatched)
STUB(cublasZgetriBatched)
STUB(cublasZgetrsBatched)
STUB(cublasZhbmv_v2)
STUB(cublasZhbmv_v2_64)
STUB(cublasZhemm_v2)
STUB(cublasZhemm_v2_64)
STUB(cublasZhemv_v2)
STUB(cublasZhemv_v2_64)
STUB(cublasZher2_v2)
STUB(cublasZher2_v2_64)
STUB(cublasZher2k_v2)
STUB(cublasZher2k_v2_64)
STUB(cublasZher_v2)
STUB(cublasZher_v2_64)
STUB(cublasZherk_v2)
STUB(cublasZherk_v2_64)
STUB(cublasZherkx)
STUB(cublasZherkx_64)
STUB(cublasZhpmv_v2)
STUB(cublasZhpmv_v2_64)
STUB(cublasZhpr2_v2)
STUB(cublasZhpr2_v2_64)
STUB(cublasZhpr_v2)
STUB(cublasZhpr_v2_64)
STUB(cublasZmatinvBatched)
STUB(cublasZrot_v2)
STUB(cublasZrot_v2_64)
STUB(cublasZrotg_v2)
STUB(cublasZscal_v2)
STUB(cublasZscal_v2_64)
STUB(cublasZswap_v2)
STUB(cublasZswap_v2_64)
STUB(cublasZsymm_v2)
STUB(cublasZsymm_v2_64)
STUB(cublasZsymv_v2)
STUB(cublasZsymv_v2_64)
STUB(cublasZsyr2_v2)
STUB(cublasZsyr2_v2_64)
STUB(cublasZsyr2k_v2)
STUB(cublasZsyr2k_v2_64)
STUB(cublasZsyr_v2)
STUB(cublasZsyr_v2_64)
STUB(cublasZsyrk_v2)
STUB(cublasZsyrk_v2_64)
STUB(cublasZsyrkx)
STUB(cublasZsyrkx_64)
STUB(cublasZtbmv_v2)
STUB(cublasZtbmv_v2_64)
STUB(cublasZtbsv_v2)
STUB(cublasZtbsv_v2_64)
STUB(cublasZtpmv_v2)
STUB(cublasZtpmv_v2_64)
STUB(cublasZtpsv_v2)
STUB(cublasZtpsv_v2_64)
STUB(cublasZtpttr)
STUB(cublasZtrmm_v2)
STUB(cublasZtrmm_v2_64)
STUB(cublasZtrmv_v2)
STUB(cublasZtrmv_v2_64)
STUB(cublasZtrsmBatched)
STUB(cublasZtrsmBatched_64)
STUB(cublasZtrsm_v2)
STUB(cublasZtrsm_v2_64)
STUB(cublasZtrsv_v2)
STUB(cublasZtrsv_v2_64)
STUB(cublasZtrttp)
