STUB(cuArray3DCreate_v2)
STUB(cuArray3DGetDescriptor_v2)
STUB(cuArrayCreate_v2)
STUB(cuArrayDestroy)
STUB(cuArrayGetDescriptor_v2)
STUB(cuArrayGetMemoryRequirements)
STUB(cuArrayGetPlane)
STUB(cuArrayGetSparseProperties)
STUB(cuCoredumpGetAttribute)
STUB(cuCoredumpGetAttributeGlobal)
STUB(cuCoredumpSetAttribute)
STUB(cuCoredumpSetAttributeGlobal)
STUB(cuCtxAttach)
STUB(cuCtxCreate_v2)
STUB(cuCtxCreate_v3)
STUB(cuCtxCreate_v4)
STUB(cuCtxDestroy_v2)
STUB(cuCtxDetach)
STUB(cuCtxDisablePeerAccess)
STUB(cuCtxEnablePeerAccess)
STUB(cuCtxFromGreenCtx)
STUB(cuCtxGetApiVersion)
STUB(cuCtxGetCacheConfig)
STUB(cuCtxGetDevResource)
STUB(cuCtxGetExecAffinity)
STUB(cuCtxGetFlags)
STUB(cuCtxGetId)
STUB(cuCtxGetLimit)
STUB(cuCtxGetSharedMemConfig)
STUB(cuCtxGetStreamPriorityRange)
STUB(cuCtxPopCurrent_v2)
STUB(cuCtxPushCurrent_v2)
STUB(cuCtxRecordEvent)
STUB(cuCtxResetPersistingL2Cache)
STUB(cuCtxSetCacheConfig)
STUB(cuCtxSetFlags)
STUB(cuCtxSetLimit)
STUB(cuCtxSetSharedMemConfig)
STUB(cuCtxWaitEvent)
STUB(cuDestroyExternalMemory)
STUB(cuDestroyExternalSemaphore)
STUB(cuDevResourceGenerateDesc)
STUB(cuDevSmResourceSplitByCount)
STUB(cuDeviceCanAccessPeer)
STUB(cuDeviceComputeCapability)
STUB(cuDeviceGetByPCIBusId)
STUB(cuDeviceGetDefaultMemPool)
STUB(cuDeviceGetDevResource)
STUB(cuDeviceGetExecAffinitySupport)
STUB(cuDeviceGetGraphMemAttribute)
STUB(cuDeviceGetLuid)
STUB(cuDeviceGetMemPool)
STUB(cuDeviceGetP2PAttribute)
STUB(cuDeviceGetPCIBusId)
STUB(cuDeviceGetProperties)
STUB(cuDeviceGetTexture1DLinearMaxWidth)
STUB(cuDeviceGetUuid)
STUB(cuDeviceGetUuid_v2)
STUB(cuDeviceGraphMemTrim)
STUB(cuDevicePrimaryCtxGetState)
STUB(cuDevicePrimaryCtxSetFlags_v2)
STUB(cuDeviceRegisterAsyncNotification)
STUB(cuDeviceSetGraphMemAttribute)
STUB(cuDeviceSetMemPool)
STUB(cuDeviceTotalMem_v2)
STUB(cuDeviceUnregisterAsyncNotification)
STUB(cuEventElapsedTime_v2)
STUB(cuEventRecordWithFlags)
STUB(cuExternalMemoryGetMappedBuffer)
STUB(cuExternalMemoryGetMappedMipmappedArray)
STUB(cuFlushGPUDirectRDMAWrites)
STUB(cuFuncGetAttribute)
STUB(cuFuncGetModule)
STUB(cuFuncGetName)
STUB(cuFuncGetParamInfo)
STUB(cuFuncIsLoaded)
STUB(cuFuncLoad)
STUB(cuFuncSetAttribute)
STUB(cuFuncSetBlockShape)
STUB(cuFuncSetCacheConfig)
STUB(cuFuncSetSharedMemConfig)
STUB(cuFuncSetSharedSize)
STUB(cuGetExportTable)
STUB(cuGetProcAddress)
STUB(cuGetProcAddress_v2)
STUB(cuGraphAddBatchMemOpNode)
STUB(cuGraphAddChildGraphNode)
STUB(cuGraphAddDependencies)
STUB(cuGraphAddDependencies_v2)
STUB(cuGraphAddEmptyNode)
STUB(cuGraphAddEventRecordNode)
STUB(cuGraphAddEventWaitNode)
STUB(cuGraphAddExternalSemaphoresSignalNode)
STUB(cuGraphAddExternalSemaphoresWaitNode)
STUB(cuGraphAddHostNode)
STUB(cuGraphAddKernelNode)
STUB(cuGraphAddKernelNode_v2)
STUB(cuGraphAddMemAllocNode)
STUB(cuGraphAddMemFreeNode)
STUB(cuGraphAddMemcpyNode)
STUB(cuGraphAddMemsetNode)
STUB(cuGraphAddNode)
STUB(cuGraphAddNode_v2)
STUB(cuGraphBatchMemOpNodeGetParams)
STUB(cuGraphBatchMemOpNodeSetParams)
STUB(cuGraphChildGraphNodeGetGraph)
STUB(cuGraphClone)
STUB(cuGraphConditionalHandleCreate)
STUB(cuGraphCreate)
STUB(cuGraphDebugDotPrint)
STUB(cuGraphDestroy)
STUB(cuGraphDestroyNode)
STUB(cuGraphEventRecordNodeGetEvent)
STUB(cuGraphEventRecordNodeSetEvent)
STUB(cuGraphEventWaitNodeGetEvent)
STUB(cuGraphEventWaitNodeSetEvent)
STUB(cuGraphExecBatchMemOpNodeSetParams)
STUB(cuGraphExecChildGraphNodeSetParams)
STUB(cuGraphExecDestroy)
STUB(cuGraphExecEventRecordNodeSetEvent)
STUB(cuGraphExecEventWaitNodeSetEvent)
STUB(cuGraphExecExternalSemaphoresSignalNodeSetParams)
STUB(cuGraphExecExternalSemaphoresWaitNodeSetParams)
STUB(cuGraphExecGetFlags)
STUB(cuGraphExecHostNodeSetParams)
STUB(cuGraphExecKernelNodeSetParams)
STUB(cuGraphExecKernelNodeSetParams_v2)
STUB(cuGraphExecMemcpyNodeSetParams)
STUB(cuGraphExecMemsetNodeSetParams)
STUB(cuGraphExecNodeSetParams)
STUB(cuGraphExecUpdate)
STUB(cuGraphExecUpdate_v2)
STUB(cuGraphExternalSemaphoresSignalNodeGetParams)
STUB(cuGraphExternalSemaphoresSignalNodeSetParams)
STUB(cuGraphExternalSemaphoresWaitNodeGetParams)
STUB(cuGraphExternalSemaphoresWaitNodeSetParams)
STUB(cuGraphGetEdges)
STUB(cuGraphGetEdges_v2)
STUB(cuGraphGetNodes)
STUB(cuGraphGetRootNodes)
STUB(cuGraphHostNodeGetParams)
STUB(cuGraphHostNodeSetParams)
STUB(cuGraphInstantiateWithFlags)
STUB(cuGraphInstantiateWithParams)
STUB(cuGraphInstantiate_v2)
STUB(cuGraphKernelNodeCopyAttributes)
STUB(cuGraphKernelNodeGetAttribute)
STUB(cuGraphKernelNodeGetParams)
STUB(cuGraphKernelNodeGetParams_v2)
STUB(cuGraphKernelNodeSetAttribute)
STUB(cuGraphKernelNodeSetParams)
STUB(cuGraphKernelNodeSetParams_v2)
STUB(cuGraphLaunch)
STUB(cuGraphMemAllocNodeGetParams)
STUB(cuGraphMemFreeNodeGetParams)
STUB(cuGraphMemcpyNodeGetParams)
STUB(cuGraphMemcpyNodeSetParams)
STUB(cuGraphMemsetNodeGetParams)
STUB(cuGraphMemsetNodeSetParams)
STUB(cuGraphNodeFindInClone)
STUB(cuGraphNodeGetDependencies)
STUB(cuGraphNodeGetDependencies_v2)
STUB(cuGraphNodeGetDependentNodes)
STUB(cuGraphNodeGetDependentNodes_v2)
STUB(cuGraphNodeGetEnabled)
STUB(cuGraphNodeGetType)
STUB(cuGraphNodeSetEnabled)
STUB(cuGraphNodeSetParams)
STUB(cuGraphReleaseUserObject)
STUB(cuGraphRemoveDependencies)
STUB(cuGraphRemoveDependencies_v2)
STUB(cuGraphRetainUserObject)
STUB(cuGraphUpload)
STUB(cuGraphicsMapResources)
STUB(cuGraphicsResourceGetMappedMipmappedArray)
STUB(cuGraphicsResourceGetMappedPointer_v2)
STUB(cuGraphicsResourceSetMapFlags_v2)
STUB(cuGraphicsSubResourceGetMappedArray)
STUB(cuGraphicsUnmapResources)
STUB(cuGraphicsUnregisterResource)
STUB(cuGreenCtxCreate)
STUB(cuGreenCtxDestroy)
STUB(cuGreenCtxGetDevResource)
STUB(cuGreenCtxRecordEvent)
STUB(cuGreenCtxStreamCreate)
STUB(cuGreenCtxWaitEvent)
STUB(cuImportExternalMemory)
STUB(cuImportExternalSemaphore)
STUB(cuIpcCloseMemHandle)
STUB(cuIpcGetEventHandle)
STUB(cuIpcGetMemHandle)
STUB(cuIpcOpenEventHandle)
STUB(cuIpcOpenMemHandle_v2)
STUB(cuKernelGetAttribute)
STUB(cuKernelGetFunction)
STUB(cuKernelGetLibrary)
STUB(cuKernelGetName)
STUB(cuKernelGetParamInfo)
STUB(cuKernelSetAttribute)
STUB(cuKernelSetCacheConfig)
STUB(cuLaunch)
STUB(cuLaunchCooperativeKernel)
STUB(cuLaunchCooperativeKernelMultiDevice)
STUB(cuLaunchGrid)
STUB(cuLaunchGridAsync)
STUB(cuLaunchHostFunc)
STUB(cuLaunchKernel)
STUB(cuLaunchKernelEx)
STUB(cuLibraryEnumerateKernels)
STUB(cuLibraryGetGlobal)
STUB(cuLibraryGetKernel)
STUB(cuLibraryGetKernelCount)
STUB(cuLibraryGetManaged)
STUB(cuLibraryGetModule)
STUB(cuLibraryGetUnifiedFunction)
STUB(cuLibraryLoadData)
STUB(cuLibraryLoadFromFile)
STUB(cuLibraryUnload)
STUB(cuLinkAddData_v2)
STUB(cuLinkAddFile_v2)
STUB(cuLinkComplete)
STUB(cuLinkCreate_v2)
STUB(cuLinkDestroy)
STUB(cuLogsCurrent)
STUB(cuLogsDumpToFile)
STUB(cuLogsDumpToMemory)
STUB(cuLogsRegisterCallback)
STUB(cuLogsUnregisterCallback)
STUB(cuMemAddressFree)
STUB(cuMemAddressReserve)
STUB(cuMemAdvise)
STUB(cuMemAdvise_v2)
STUB(cuMemAllocFromPoolAsync)
STUB(cuMemAllocHost_v2)
STUB(cuMemAllocManaged)
STUB(cuMemAllocPitch_v2)
STUB(cuMemBatchDecompressAsync)
STUB(cuMemCreate)
STUB(cuMemExportToShareableHandle)
STUB(cuMemFreeHost)
STUB(cuMemGetAccess)
STUB(cuMemGetAddressRange_v2)
STUB(cuMemGetAllocationGranularity)
STUB(cuMemGetAllocationPropertiesFromHandle)
STUB(cuMemGetHandleForAddressRange)
STUB(cuMemHostAlloc)
STUB(cuMemHostGetDevicePointer_v2)
STUB(cuMemHostGetFlags)
STUB(cuMemHostRegister_v2)
STUB(cuMemHostUnregister)
STUB(cuMemImportFromShareableHandle)
STUB(cuMemMap)
STUB(cuMemMapArrayAsync)
STUB(cuMemPoolCreate)
STUB(cuMemPoolDestroy)
STUB(cuMemPoolExportPointer)
STUB(cuMemPoolExportToShareableHandle)
STUB(cuMemPoolGetAccess)
STUB(cuMemPoolGetAttribute)
STUB(cuMemPoolImportFromShareableHandle)
STUB(cuMemPoolImportPointer)
STUB(cuMemPoolSetAccess)
STUB(cuMemPoolSetAttribute)
STUB(cuMemPoolTrimTo)
STUB(cuMemPrefetchAsync)
STUB(cuMemPrefetchAsync_v2)
STUB(cuMemRangeGetAttribute)
STUB(cuMemRangeGetAttributes)
STUB(cuMemRelease)
STUB(cuMemRetainAllocationHandle)
STUB(cuMemSetAccess)
STUB(cuMemUnmap)
STUB(cuMemcpy)
STUB(cuMemcpy2DAsync_v2)
STUB(cuMemcpy2DUnaligned_v2)
STUB(cuMemcpy2D_v2)
STUB(cuMemcpy3DAsync_v2)
STUB(cuMemcpy3DBatchAsync)
STUB(cuMemcpy3DPeer)
STUB(cuMemcpy3DPeerAsync)
STUB(cuMemcpy3D_v2)
STUB(cuMemcpyAsync)
STUB(cuMemcpyAtoA_v2)
STUB(cuMemcpyAtoD_v2)
STUB(cuMemcpyAtoHAsync_v2)
STUB(cuMemcpyAtoH_v2)
STUB(cuMemcpyBatchAsync)
STUB(cuMemcpyDtoA_v2)
STUB(cuMemcpyHtoAAsync_v2)
STUB(cuMemcpyHtoA_v2)
STUB(cuMemcpyPeer)
STUB(cuMemcpyPeerAsync)
STUB(cuMemsetD16Async)
STUB(cuMemsetD16_v2)
STUB(cuMemsetD2D16Async)
STUB(cuMemsetD2D16_v2)
STUB(cuMemsetD2D32Async)
STUB(cuMemsetD2D32_v2)
STUB(cuMemsetD2D8Async)
STUB(cuMemsetD2D8_v2)
STUB(cuMemsetD32Async)
STUB(cuMemsetD32_v2)
STUB(cuMipmappedArrayCreate)
STUB(cuMipmappedArrayDestroy)
STUB(cuMipmappedArrayGetLevel)
STUB(cuMipmappedArrayGetMemoryRequirements)
STUB(cuMipmappedArrayGetSparseProperties)
STUB(cuModuleEnumerateFunctions)
STUB(cuModuleGetFunction)
STUB(cuModuleGetFunctionCount)
STUB(cuModuleGetGlobal_v2)
STUB(cuModuleGetLoadingMode)
STUB(cuModuleGetSurfRef)
STUB(cuModuleGetTexRef)
STUB(cuModuleLoad)
STUB(cuModuleLoadData)
STUB(cuModuleLoadDataEx)
STUB(cuModuleLoadFatBinary)
STUB(cuModuleUnload)
STUB(cuMulticastAddDevice)
STUB(cuMulticastBindAddr)
STUB(cuMulticastBindMem)
STUB(cuMulticastCreate)
STUB(cuMulticastGetGranularity)
STUB(cuMulticastUnbind)
STUB(cuOccupancyAvailableDynamicSMemPerBlock)
STUB(cuOccupancyMaxActiveBlocksPerMultiprocessor)
STUB(cuOccupancyMaxActiveBlocksPerMultiprocessorWithFlags)
STUB(cuOccupancyMaxActiveClusters)
STUB(cuOccupancyMaxPotentialBlockSize)
STUB(cuOccupancyMaxPotentialBlockSizeWithFlags)
STUB(cuOccupancyMaxPotentialClusterSize)
STUB(cuParamSetSize)
STUB(cuParamSetTexRef)
STUB(cuParamSetf)
STUB(cuParamSeti)
STUB(cuParamSetv)
STUB(cuPointerGetAttribute)
STUB(cuPointerGetAttributes)
STUB(cuPointerSetAttribute)
STUB(cuProfilerInitialize)
STUB(cuProfilerStart)
STUB(cuProfilerStop)
STUB(cuSignalExternalSemaphoresAsync)
STUB(cuStreamAddCallback)
STUB(cuStreamAttachMemAsync)
STUB(cuStreamBatchMemOp)
STUB(cuStreamBatchMemOp_v2)
STUB(cuStreamBeginCaptureToGraph)
STUB(cuStreamBeginCapture_v2)
STUB(cuStreamCopyAttributes)
STUB(cuStreamEndCapture)
STUB(cuStreamGetAttribute)
STUB(cuStreamGetCaptureInfo)
STUB(cuStreamGetCaptureInfo_v2)
STUB(cuStreamGetCaptureInfo_v3)
STUB(cuStreamGetCtx)
STUB(cuStreamGetCtx_v2)
STUB(cuStreamGetDevice)
STUB(cuStreamGetFlags)
STUB(cuStreamGetGreenCtx)
STUB(cuStreamGetId)
STUB(cuStreamGetPriority)
STUB(cuStreamIsCapturing)
STUB(cuStreamSetAttribute)
STUB(cuStreamUpdateCaptureDependencies)
STUB(cuStreamUpdateCaptureDependencies_v2)
STUB(cuStreamWaitValue32)
STUB(cuStreamWaitValue32_v2)
STUB(cuStreamWaitValue64)
STUB(cuStreamWaitValue64_v2)
STUB(cuStreamWriteValue32)
STUB(cuStreamWriteValue32_v2)
STUB(cuStreamWriteValue64)
STUB(cuStreamWriteValue64_v2)
STUB(cuSurfObjectCreate)
STUB(cuSurfObjectDestroy)
STUB(cuSurfObjectGetResourceDesc)
STUB(cuSurfRefGetArray)
STUB(cuSurfRefSetArray)
STUB(cuTensorMapEncodeIm2col)
STUB(cuTensorMapEncodeIm2colWide)
STUB(cuTensorMapEncodeTiled)
STUB(cuTensorMapReplaceAddress)
STUB(cuTexObjectCreate)
STUB(cuTexObjectDestroy)
STUB(cuTexObjectGetResourceDesc)
STUB(cuTexObjectGetResourceViewDesc)
STUB(cuTexObjectGetTextureDesc)
STUB(cuTexRefCreate)
STUB(cuTexRefDestroy)
STUB(cuTexRefGetAddressMode)
STUB(cuTexRefGetAddress_v2)
STUB(cuTexRefGetArray)
STUB(cuTexRefGetBorderColor)
STUB(cuTexRefGetFilterMode)
STUB(cuTexRefGetFlags)
STUB(cuTexRefGetFormat)
STUB(cuTexRefGetMaxAnisotropy)
STUB(cuTexRefGetMipmapFilterMode)
STUB(cuTexRefGetMipmapLevelBias)
STUB(cuTexRefGetMipmapLevelClamp)
STUB(cuTexRefGetMipmappedArray)
STUB(cuTexRefSetAddress2D_v3)
STUB(cuTexRefSetAddressMode)
STUB(cuTexRefSetAddress_v2)
STUB(cuTexRefSetArray)
STUB(cuTexRefSetBorderColor)
STUB(cuTexRefSetFilterMode)
STUB(cuTexRefSetFlags)
STUB(cuTexRefSetFormat)
STUB(cuTexRefSetMaxAnisotropy)
STUB(cuTexRefSetMipmapFilterMode)
STUB(cuTexRefSetMipmapLevelBias)
STUB(cuTexRefSetMipmapLevelClamp)
STUB(cuTexRefSetMipmappedArray)
STUB(cuThreadExchangeStreamCaptureMode)
STUB(cuUserObjectCreate)
STUB(cuUserObjectRelease)
STUB(cuUserObjectRetain)
STUB(cuWaitExternalSemaphoresAsync)
