// Entry points of openworkers-v8 that the shim does not implement.
extern void verif_unimplemented(const char*);
#define S(n) __attribute__((weak)) void n(void) { verif_unimplemented(#n); }
S(cppgc__Member__Assign)
S(cppgc__Member__CONSTRUCT)
S(cppgc__Member__DESTRUCT)
S(cppgc__Member__Get)
S(cppgc__Persistent__Assign)
S(cppgc__Persistent__CONSTRUCT)
S(cppgc__Persistent__DESTRUCT)
S(cppgc__Persistent__Get)
S(cppgc__Visitor__Trace__Member)
S(cppgc__Visitor__Trace__TracedReference)
S(cppgc__Visitor__Trace__WeakMember)
S(cppgc__WeakMember__Assign)
S(cppgc__WeakMember__CONSTRUCT)
S(cppgc__WeakMember__DESTRUCT)
S(cppgc__WeakMember__Get)
S(cppgc__WeakPersistent__Assign)
S(cppgc__WeakPersistent__CONSTRUCT)
S(cppgc__WeakPersistent__DESTRUCT)
S(cppgc__WeakPersistent__Get)
S(cppgc__heap__collect_garbage_for_testing)
S(cppgc__heap__enable_detached_garbage_collections_for_testing)
S(cppgc__initialize_process)
S(cppgc__make_garbage_collectable)
S(cppgc__shutdown_process)
S(crdtp__CreateErrorNotification)
S(crdtp__CreateErrorResponse)
S(crdtp__CreateNotification)
S(crdtp__CreateResponse)
S(crdtp__DispatchResponse__DELETE)
S(crdtp__DispatchResponse__FallThrough)
S(crdtp__DispatchResponse__InvalidParams)
S(crdtp__DispatchResponse__InvalidRequest)
S(crdtp__DispatchResponse__MethodNotFound)
S(crdtp__DispatchResponse__ParseError)
S(crdtp__DispatchResponse__ServerError)
S(crdtp__DispatchResponse__Success)
S(crdtp__DispatchResponse__code)
S(crdtp__DispatchResponse__isError)
S(crdtp__DispatchResponse__isFallThrough)
S(crdtp__DispatchResponse__isSuccess)
S(crdtp__DispatchResponse__messageCopy)
S(crdtp__DispatchResponse__messageLen)
S(crdtp__DispatchResult__DELETE)
S(crdtp__DispatchResult__MethodFound)
S(crdtp__DispatchResult__Run)
S(crdtp__Dispatchable__DELETE)
S(crdtp__Dispatchable__callId)
S(crdtp__Dispatchable__hasCallId)
S(crdtp__Dispatchable__methodCopy)
S(crdtp__Dispatchable__methodLen)
S(crdtp__Dispatchable__new)
S(crdtp__Dispatchable__ok)
S(crdtp__Dispatchable__paramsCopy)
S(crdtp__Dispatchable__paramsLen)
S(crdtp__Dispatchable__sessionIdCopy)
S(crdtp__Dispatchable__sessionIdLen)
S(crdtp__DomainDispatcher__new)
S(crdtp__DomainDispatcher__sendResponse)
S(crdtp__FrontendChannel__BASE__CONSTRUCT)
S(crdtp__Serializable__AppendSerialized)
S(crdtp__Serializable__DELETE)
S(crdtp__UberDispatcher__DELETE)
S(crdtp__UberDispatcher__Dispatch)
S(crdtp__UberDispatcher__WireBackend)
S(crdtp__UberDispatcher__channel)
S(crdtp__UberDispatcher__new)
S(crdtp__json__ConvertCBORToJSON)
S(crdtp__json__ConvertJSONToCBOR)
S(crdtp__vec_u8__DELETE)
S(crdtp__vec_u8__copy)
S(crdtp__vec_u8__new)
S(crdtp__vec_u8__size)
S(icu_get_default_locale)
S(icu_set_default_locale)
S(simdutf__base64_length_from_binary)
S(simdutf__base64_to_binary)
S(simdutf__binary_to_base64)
S(simdutf__convert_latin1_to_utf16le)
S(simdutf__convert_latin1_to_utf8)
S(simdutf__convert_utf16be_to_utf8)
S(simdutf__convert_utf16le_to_latin1)
S(simdutf__convert_utf16le_to_utf8)
S(simdutf__convert_utf16le_to_utf8_with_errors)
S(simdutf__convert_utf32_to_utf8)
S(simdutf__convert_utf8_to_latin1)
S(simdutf__convert_utf8_to_latin1_with_errors)
S(simdutf__convert_utf8_to_utf16be)
S(simdutf__convert_utf8_to_utf16le)
S(simdutf__convert_utf8_to_utf16le_with_errors)
S(simdutf__convert_utf8_to_utf32)
S(simdutf__convert_valid_utf16le_to_utf8)
S(simdutf__convert_valid_utf8_to_latin1)
S(simdutf__convert_valid_utf8_to_utf16le)
S(simdutf__count_utf16be)
S(simdutf__count_utf16le)
S(simdutf__count_utf8)
S(simdutf__detect_encodings)
S(simdutf__latin1_length_from_utf8)
S(simdutf__maximal_binary_length_from_base64)
S(simdutf__utf16_length_from_utf32)
S(simdutf__utf16_length_from_utf8)
S(simdutf__utf32_length_from_utf16le)
S(simdutf__utf32_length_from_utf8)
S(simdutf__utf8_length_from_latin1)
S(simdutf__utf8_length_from_utf16be)
S(simdutf__utf8_length_from_utf16le)
S(simdutf__utf8_length_from_utf32)
S(simdutf__validate_ascii)
S(simdutf__validate_ascii_with_errors)
S(simdutf__validate_utf16be)
S(simdutf__validate_utf16be_with_errors)
S(simdutf__validate_utf16le)
S(simdutf__validate_utf16le_with_errors)
S(simdutf__validate_utf32)
S(simdutf__validate_utf32_with_errors)
S(simdutf__validate_utf8)
S(simdutf__validate_utf8_with_errors)
S(v8__ArrayBufferView__GetContents)
S(v8__Context__FromSnapshot)
S(v8__CppHeap__Create)
S(v8__CppHeap__Terminate)
S(v8__Data__IsModuleRequest)
S(v8__Data__IsPrimitive)
S(v8__Exception__CaptureStackTrace)
S(v8__FixedArray__Get)
S(v8__HeapProfiler__TakeHeapSnapshot)
S(v8__Isolate__GetCurrentHostDefinedOptions)
S(v8__Isolate__SetHostImportModuleWithPhaseDynamicallyCallback)
S(v8__ModuleCachingInterface__GetWireBytes)
S(v8__ModuleCachingInterface__SetCachedCompiledModuleBytes)
S(v8__ModuleRequest__GetPhase)
S(v8__Module__GetStalledTopLevelAwaitMessage)
S(v8__Module__InstantiateModule)
S(v8__Object__GetAlignedPointerFromInternalField)
S(v8__Object__GetPrototype)
S(v8__Object__GetWithReceiver)
S(v8__Object__SetAlignedPointerInInternalField)
S(v8__Object__SetPrototype)
S(v8__Object__SetWithReceiver)
S(v8__Object__Unwrap)
S(v8__Object__Wrap)
S(v8__Platform__NewCustomPlatform)
S(v8__Platform__NewSingleThreadedDefaultPlatform)
S(v8__Platform__NewUnprotectedDefaultPlatform)
S(v8__Platform__RunIdleTasks)
S(v8__PropertyCallbackInfo__Holder)
S(v8__SnapshotCreator__AddContext)
S(v8__String__NewExternalOneByte)
S(v8__String__NewExternalOneByteStatic)
S(v8__String__NewExternalTwoByteStatic)
S(v8__String__ValueView__CONSTRUCT)
S(v8__String__ValueView__DESTRUCT)
S(v8__String__ValueView__data)
S(v8__String__ValueView__is_one_byte)
S(v8__String__ValueView__length)
S(v8__Symbol__GetAsyncIterator)
S(v8__Symbol__GetHasInstance)
S(v8__Symbol__GetIsConcatSpreadable)
S(v8__Symbol__GetIterator)
S(v8__Symbol__GetMatch)
S(v8__Symbol__GetReplace)
S(v8__Symbol__GetSearch)
S(v8__Symbol__GetSplit)
S(v8__Symbol__GetToPrimitive)
S(v8__Symbol__GetToStringTag)
S(v8__Symbol__GetUnscopables)
S(v8__V8__SetFatalErrorHandler)
S(v8__V8__SetFlagsFromCommandLine)
S(v8__ValueDeserializer__Delegate__CONSTRUCT)
S(v8__ValueSerializer__Delegate__CONSTRUCT)
S(v8__Value__GetHash)
S(v8__WasmModuleCompilation__Abort)
S(v8__WasmModuleCompilation__DELETE)
S(v8__WasmModuleCompilation__Finish)
S(v8__WasmModuleCompilation__NEW)
S(v8__WasmModuleCompilation__OnBytesReceived)
S(v8__WasmModuleCompilation__SetHasCompiledModuleBytes)
S(v8__WasmModuleCompilation__SetMoreFunctionsCanBeSerializedCallback)
S(v8__WasmModuleCompilation__SetUrl)
S(v8__WasmStreaming__Abort)
S(v8__WasmStreaming__Finish)
S(v8__WasmStreaming__OnBytesReceived)
S(v8__WasmStreaming__SetHasCompiledModuleBytes)
S(v8__WasmStreaming__SetUrl)
S(v8__WasmStreaming__Unpack)
S(v8__WasmStreaming__shared_ptr_DESTRUCT)
S(v8_inspector__StringBuffer__DELETE)
S(v8_inspector__StringBuffer__create)
S(v8_inspector__StringBuffer__string)
S(v8_inspector__V8InspectorClient__BASE__CONSTRUCT)
S(v8_inspector__V8InspectorClient__consoleAPIMessage)
S(v8_inspector__V8InspectorClient__generateUniqueId)
S(v8_inspector__V8InspectorClient__quitMessageLoopOnPause)
S(v8_inspector__V8InspectorClient__runIfWaitingForDebugger)
S(v8_inspector__V8InspectorClient__runMessageLoopOnPause)
S(v8_inspector__V8InspectorSession__DELETE)
S(v8_inspector__V8InspectorSession__canDispatchMethod)
S(v8_inspector__V8InspectorSession__dispatchProtocolMessage)
S(v8_inspector__V8InspectorSession__schedulePauseOnNextStatement)
S(v8_inspector__V8Inspector__Channel__BASE__CONSTRUCT)
S(v8_inspector__V8Inspector__Channel__flushProtocolNotifications)
S(v8_inspector__V8Inspector__Channel__sendNotification)
S(v8_inspector__V8Inspector__Channel__sendResponse)
S(v8_inspector__V8Inspector__DELETE)
S(v8_inspector__V8Inspector__connect)
S(v8_inspector__V8Inspector__contextCreated)
S(v8_inspector__V8Inspector__contextDestroyed)
S(v8_inspector__V8Inspector__create)
S(v8_inspector__V8Inspector__createStackTrace)
S(v8_inspector__V8Inspector__exceptionThrown)
S(v8_inspector__V8StackTrace__DELETE)
