// V8 for the runtime under test: implements the C entry points that the Rust crate
// openworkers-v8 expects (v8__*), on top of the V8 inside the installed `node` binary.
// Loaded into node with process.dlopen(RTLD_GLOBAL); then loads a Rust cdylib and runs it on
// a thread of its own. Entry points that need no adaptation are in binding_ext.cc.
#include <dlfcn.h>
#include <node.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

#include <condition_variable>
#include <deque>
#include <map>
#include <mutex>
#include <string>

#include "support.h"
using namespace support;

static node::MultiIsolatePlatform* g_platform;

// ---- foreground tasks of the isolates made here -------------------------------------------
class Runner : public v8::TaskRunner {
 public:
  void PostTask(std::unique_ptr<v8::Task> t) override { Push(std::move(t)); }
  void PostNonNestableTask(std::unique_ptr<v8::Task> t) override { Push(std::move(t)); }
  void PostDelayedTask(std::unique_ptr<v8::Task>, double) override {}
  void PostNonNestableDelayedTask(std::unique_ptr<v8::Task>, double) override {}
  void PostIdleTask(std::unique_ptr<v8::IdleTask>) override {}
  bool IdleTasksEnabled() override { return false; }
  bool NonNestableTasksEnabled() const override { return true; }
  bool NonNestableDelayedTasksEnabled() const override { return true; }
  bool RunOne() {
    std::unique_ptr<v8::Task> t;
    {
      std::lock_guard<std::mutex> l(m_);
      if (q_.empty()) return false;
      t = std::move(q_.front());
      q_.pop_front();
    }
    t->Run();
    return true;
  }
  void Clear() {
    std::deque<std::unique_ptr<v8::Task>> q;
    {
      std::lock_guard<std::mutex> l(m_);
      closed_ = true;
      q.swap(q_);
    }
  }

 private:
  void Push(std::unique_ptr<v8::Task> t) {
    std::lock_guard<std::mutex> l(m_);
    if (!closed_) q_.push_back(std::move(t));
  }
  std::mutex m_;
  std::deque<std::unique_ptr<v8::Task>> q_;
  bool closed_ = false;
};

class Delegate : public node::IsolatePlatformDelegate {
 public:
  std::shared_ptr<Runner> runner = std::make_shared<Runner>();
  std::shared_ptr<v8::TaskRunner> GetForegroundTaskRunner() override { return runner; }
  bool IdleTasksEnabled() override { return false; }
};

static std::mutex g_isolates_mutex;
static std::map<v8::Isolate*, Delegate*> g_isolates;

// ---- rusty_v8's repr(C) mirror of Isolate::CreateParams -------------------------------------
struct RustConstraints {
  size_t code_range_size, max_old, max_young, initial_old, initial_young;
  uint64_t physical_memory_size;
  uint32_t* stack_limit;
};
struct RustCreateParams {
  void* code_event_handler;
  RustConstraints constraints;
  v8::StartupData* snapshot_blob;
  v8::CounterLookupCallback counter_lookup_callback;
  void* create_histogram_callback;
  void* add_histogram_sample_callback;
  v8::ArrayBuffer::Allocator* array_buffer_allocator;
  std::shared_ptr<v8::ArrayBuffer::Allocator> array_buffer_allocator_shared;
  const intptr_t* external_references;
  bool allow_atomics_wait;
  void* fatal_error_handler;
  void* oom_error_handler;
  void* cpp_heap;
};

static_assert(sizeof(v8::HandleScope) <= 3 * sizeof(void*), "HandleScope");
static_assert(sizeof(v8::TryCatch) <= 6 * sizeof(void*), "TryCatch");
static_assert(sizeof(v8::ScriptOrigin) <= 40, "ScriptOrigin");
static_assert(sizeof(v8::ScriptCompiler::Source) <= 13 * 8 + 16, "Source");
static_assert(sizeof(v8::Locker) <= 2 * sizeof(void*), "Locker");

struct RustAllocatorVtable {
  void* (*allocate)(void* handle, size_t length);
  void* (*allocate_uninitialized)(void* handle, size_t length);
  void (*free)(void* handle, void* data, size_t length);
  void (*drop)(void* handle);
};

class RustAllocator : public v8::ArrayBuffer::Allocator {
  void* handle_;
  const RustAllocatorVtable* vtable_;

 public:
  RustAllocator(void* h, const RustAllocatorVtable* v) : handle_(h), vtable_(v) {}
  ~RustAllocator() override { vtable_->drop(handle_); }
  void* Allocate(size_t n) final { return vtable_->allocate(handle_, n); }
  void* AllocateUninitialized(size_t n) final {
    return vtable_->allocate_uninitialized(handle_, n);
  }
  void Free(void* p, size_t n) final { vtable_->free(handle_, p, n); }
};

static int write_flags(int v2) {
  int o = v8::String::NO_OPTIONS;
  if (!(v2 & 1)) o |= v8::String::NO_NULL_TERMINATION;
  if (v2 & 2) o |= v8::String::REPLACE_INVALID_UTF8;
  return o;
}

extern "C" {

void v8__V8__SetFlagsFromString(const char* flags, size_t n) {
  v8::V8::SetFlagsFromString(flags, n);
}
void v8__V8__InitializePlatform(v8::Platform*) {}
void v8__V8__Initialize() {}
bool v8__V8__Dispose() { return true; }
void v8__V8__DisposePlatform() {}

// The platform is node's own; Rust only holds this handle.
v8::Platform* v8__Platform__NewDefaultPlatform(int, bool) { return g_platform; }
void v8__Platform__DELETE(v8::Platform*) {}
static void keep(v8::Platform*) {}
two_pointers_t std__shared_ptr__v8__Platform__CONVERT__std__unique_ptr(v8::Platform* p) {
  return make_pod<two_pointers_t>(std::shared_ptr<v8::Platform>(p, keep));
}
void v8__Platform__NotifyIsolateShutdown(v8::Platform*, v8::Isolate*) {}
bool v8__Platform__PumpMessageLoop(v8::Platform*, v8::Isolate* isolate, bool) {
  std::shared_ptr<Runner> r;
  {
    std::lock_guard<std::mutex> l(g_isolates_mutex);
    auto it = g_isolates.find(isolate);
    if (it == g_isolates.end()) return false;
    r = it->second->runner;
  }
  return r->RunOne();
}

size_t v8__Isolate__CreateParams__SIZEOF() { return sizeof(RustCreateParams); }
void v8__Isolate__CreateParams__CONSTRUCT(void* buf) {
  v8::Isolate::CreateParams d;
  auto* p = new (buf) RustCreateParams();
  p->allow_atomics_wait = d.allow_atomics_wait;
  memcpy(&p->constraints, &d.constraints, sizeof(RustConstraints));
}
void v8__ResourceConstraints__ConfigureDefaultsFromHeapSize(RustConstraints* c, size_t initial,
                                                            size_t max) {
  v8::ResourceConstraints r;
  r.ConfigureDefaultsFromHeapSize(initial, max);
  c->code_range_size = r.code_range_size_in_bytes();
  c->max_old = r.max_old_generation_size_in_bytes();
  c->max_young = r.max_young_generation_size_in_bytes();
  c->initial_old = r.initial_old_generation_size_in_bytes();
  c->initial_young = r.initial_young_generation_size_in_bytes();
}

static v8::Isolate::CreateParams params_of(const RustCreateParams& p) {
  v8::Isolate::CreateParams q;
  q.constraints.set_code_range_size_in_bytes(p.constraints.code_range_size);
  q.constraints.set_max_old_generation_size_in_bytes(p.constraints.max_old);
  q.constraints.set_max_young_generation_size_in_bytes(p.constraints.max_young);
  q.constraints.set_initial_old_generation_size_in_bytes(p.constraints.initial_old);
  q.constraints.set_initial_young_generation_size_in_bytes(p.constraints.initial_young);
  if (p.constraints.stack_limit) q.constraints.set_stack_limit(p.constraints.stack_limit);
  q.counter_lookup_callback = p.counter_lookup_callback;
  q.array_buffer_allocator_shared = p.array_buffer_allocator_shared;
  q.array_buffer_allocator =
      p.array_buffer_allocator ? p.array_buffer_allocator : p.array_buffer_allocator_shared.get();
  q.allow_atomics_wait = p.allow_atomics_wait;
  q.snapshot_blob = p.snapshot_blob;
  q.external_references = p.external_references;
  return q;
}
static v8::Isolate* new_isolate() {
  std::lock_guard<std::mutex> l(g_isolates_mutex);
  v8::Isolate* isolate = v8::Isolate::Allocate();
  auto* d = new Delegate;
  g_isolates[isolate] = d;
  g_platform->RegisterIsolate(isolate, d);
  return isolate;
}
v8::Isolate* v8__Isolate__New(const RustCreateParams& p) {
  v8::Isolate* isolate = new_isolate();
  v8::Isolate::Initialize(isolate, params_of(p));
  return isolate;
}
void v8__Isolate__Dispose(v8::Isolate* isolate) {
  std::lock_guard<std::mutex> l(g_isolates_mutex);
  Delegate* d = g_isolates[isolate];
  d->runner->Clear();
  isolate->Dispose();
  g_platform->UnregisterIsolate(isolate);
  g_isolates.erase(isolate);
  delete d;
}

// A creator of a snapshot owns its isolate.
void v8__SnapshotCreator__CONSTRUCT(v8::SnapshotCreator* buf, const RustCreateParams& p) {
  static v8::ArrayBuffer::Allocator* allocator = v8::ArrayBuffer::Allocator::NewDefaultAllocator();
  v8::Isolate::CreateParams q = params_of(p);
  if (!q.array_buffer_allocator) q.array_buffer_allocator = allocator;
  new (buf) v8::SnapshotCreator(new_isolate(), q);
}
void v8__SnapshotCreator__DESTRUCT(v8::SnapshotCreator* self) {
  v8::Isolate* isolate = self->GetIsolate();
  self->~SnapshotCreator();
  v8__Isolate__Dispose(isolate);
}
v8::Isolate* v8__SnapshotCreator__GetIsolate(v8::SnapshotCreator* self) { return self->GetIsolate(); }
void v8__SnapshotCreator__SetDefaultContext(v8::SnapshotCreator* self, const v8::Context& context) {
  self->SetDefaultContext(ptr_to_local(&context));
}
v8::StartupData v8__SnapshotCreator__CreateBlob(v8::SnapshotCreator* self,
                                                v8::SnapshotCreator::FunctionCodeHandling h) {
  return self->CreateBlob(h);
}
void v8__Isolate__SetOOMErrorHandler(v8::Isolate* isolate, v8::OOMErrorCallback cb) {
  isolate->SetOOMErrorHandler(cb);
}

const v8::Context* v8__Context__New(v8::Isolate* isolate, const v8::ObjectTemplate* templ,
                                    const v8::Value* global_object,
                                    v8::MicrotaskQueue* microtask_queue) {
  return local_to_ptr(v8::Context::New(
      isolate, nullptr, ptr_to_maybe_local(templ), ptr_to_maybe_local(global_object),
      v8::DeserializeInternalFieldsCallback(), microtask_queue));
}
void v8__Context__SetAlignedPointerInEmbedderData(v8::Context& self, int index, void* value) {
  ptr_to_local(&self)->SetAlignedPointerInEmbedderData(index, value);
}
void* v8__Context__GetAlignedPointerFromEmbedderData(const v8::Context& self, int index) {
  return ptr_to_local(&self)->GetAlignedPointerFromEmbedderData(index);
}

const v8::FunctionTemplate* v8__FunctionTemplate__New(
    v8::Isolate* isolate, v8::FunctionCallback callback, const v8::Value* data_or_null,
    const v8::Signature* signature_or_null, int length,
    v8::ConstructorBehavior constructor_behavior, v8::SideEffectType side_effect_type,
    const void*, size_t) {
  return local_to_ptr(v8::FunctionTemplate::New(
      isolate, callback, ptr_to_local(data_or_null), ptr_to_local(signature_or_null), length,
      constructor_behavior, side_effect_type));
}
uintptr_t* v8__FunctionCallbackInfo__GetReturnValue(
    const v8::FunctionCallbackInfo<v8::Value>& self) {
  v8::ReturnValue<v8::Value> rv = self.GetReturnValue();
  return *reinterpret_cast<uintptr_t**>(&rv);
}

size_t v8__String__WriteUtf8_v2(const v8::String& self, v8::Isolate* isolate, char* buffer,
                                size_t capacity, int flags, size_t* processed) {
  int chars = 0;
  int n = self.WriteUtf8(isolate, buffer, (int)capacity, &chars, write_flags(flags));
  if (processed) *processed = chars;
  return n;
}
void v8__String__WriteOneByte_v2(const v8::String& self, v8::Isolate* isolate, uint32_t offset,
                                 uint32_t length, uint8_t* buffer, int flags) {
  self.WriteOneByte(isolate, buffer, offset, length, write_flags(flags));
}
void v8__String__Write_v2(const v8::String& self, v8::Isolate* isolate, uint32_t offset,
                          uint32_t length, uint16_t* buffer, int flags) {
  self.Write(isolate, buffer, offset, length, write_flags(flags));
}
size_t v8__String__Utf8Length(const v8::String& self, v8::Isolate* isolate) {
  return self.Utf8Length(isolate);
}

v8::ArrayBuffer::Allocator* v8__ArrayBuffer__Allocator__NewRustAllocator(
    void* handle, const RustAllocatorVtable* vtable) {
  return new RustAllocator(handle, vtable);
}

#define TYPED(name)                                                                      \
  const v8::name* v8__##name##__New(const v8::ArrayBuffer& b, size_t offset, size_t n) { \
    return local_to_ptr(v8::name::New(ptr_to_local(&b), offset, n));                     \
  }
TYPED(Uint8Array)
TYPED(Uint8ClampedArray)
TYPED(Int8Array)
TYPED(Uint16Array)
TYPED(Int16Array)
TYPED(Uint32Array)
TYPED(Int32Array)
TYPED(Float32Array)
TYPED(Float64Array)
TYPED(BigUint64Array)
TYPED(BigInt64Array)

#define SYMBOL(name)                                                     \
  const v8::Symbol* v8__Symbol__Get##name(v8::Isolate* isolate) {        \
    return local_to_ptr(v8::Symbol::Get##name(isolate));                 \
  }
SYMBOL(AsyncIterator)
SYMBOL(HasInstance)
SYMBOL(IsConcatSpreadable)
SYMBOL(Iterator)
SYMBOL(Match)
SYMBOL(Replace)
SYMBOL(Search)
SYMBOL(Split)
SYMBOL(ToPrimitive)
SYMBOL(ToStringTag)
SYMBOL(Unscopables)

// ICU: node brings its own data.
void udata_setCommonData_77(const void*, int32_t* err) { *err = 0; }

// Calling an entry point without an implementation here is a gap of the harness, not a
// violation: distinct exit code.
void verif_unimplemented(const char* name) {
  fprintf(stderr, "HARNESS: V8 entry point %s is not implemented by the shim\n", name);
  _exit(70);
}
}

// ---- running the Rust library ---------------------------------------------------------------
static void* load_rust() {
  const char* path = getenv("VERIF_LIB");
  if (!path) {
    fprintf(stderr, "HARNESS: VERIF_LIB is not set\n");
    _exit(70);
  }
  void* h = dlopen(path, RTLD_NOW | RTLD_GLOBAL);
  if (!h) {
    fprintf(stderr, "HARNESS: %s\n", dlerror());
    _exit(70);
  }
  return h;
}

static pthread_t big_thread(void* (*f)(void*), void* arg) {
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 64u << 20);
  pthread_t t;
  if (pthread_create(&t, &a, f, arg)) {
    perror("HARNESS: pthread_create");
    _exit(70);
  }
  return t;
}

// main(args...): runs verif_main on a thread of its own and returns its result.
static void* main_thread(void* h) {
  auto f = (int (*)())dlsym(h, getenv("VERIF_ENTRY") ? getenv("VERIF_ENTRY") : "verif_main");
  return (void*)(intptr_t)f();
}
static void Main(const v8::FunctionCallbackInfo<v8::Value>& args) {
  void* r;
  pthread_join(big_thread(main_thread, load_rust()), &r);
  args.GetReturnValue().Set((int32_t)(intptr_t)r);
}

// call(string) -> string: a request to verif_call, on one persistent thread.
static std::mutex g_call_mutex;
static std::condition_variable g_call_cv;
static std::string g_request, g_reply;
static int g_state;  // 0 idle, 1 request, 2 reply
static void* call_thread(void* h) {
  auto f = (char* (*)(const char*, size_t, size_t*))dlsym(h, "verif_call");
  auto del = (void (*)(char*, size_t))dlsym(h, "verif_free");
  for (;;) {
    std::unique_lock<std::mutex> l(g_call_mutex);
    g_call_cv.wait(l, [] { return g_state == 1; });
    size_t n;
    char* p = f(g_request.data(), g_request.size(), &n);
    g_reply.assign(p, n);
    del(p, n);
    g_state = 2;
    g_call_cv.notify_all();
  }
}
static void Call(const v8::FunctionCallbackInfo<v8::Value>& args) {
  v8::Isolate* isolate = args.GetIsolate();
  static bool started = false;
  if (!started) {
    started = true;
    pthread_detach(big_thread(call_thread, load_rust()));
  }
  v8::String::Utf8Value s(isolate, args[0]);
  std::unique_lock<std::mutex> l(g_call_mutex);
  g_request.assign(*s, s.length());
  g_state = 1;
  g_call_cv.notify_all();
  g_call_cv.wait(l, [] { return g_state == 2; });
  g_state = 0;
  args.GetReturnValue().Set(
      v8::String::NewFromUtf8(isolate, g_reply.data(), v8::NewStringType::kNormal,
                              (int)g_reply.size())
          .ToLocalChecked());
}
static void Exit(const v8::FunctionCallbackInfo<v8::Value>& args) {
  fflush(stdout);
  fflush(stderr);
  _exit(args[0].As<v8::Int32>()->Value());
}

NODE_MODULE_INIT() {
  g_platform = node::GetMultiIsolatePlatform(node::GetCurrentEnvironment(context));
  NODE_SET_METHOD(exports, "main", Main);
  NODE_SET_METHOD(exports, "call", Call);
  NODE_SET_METHOD(exports, "exit", Exit);
}
