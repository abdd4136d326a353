// A Java virtual machine as far as the Android binding sees it: strings, classes, pending exceptions.  Included by sim.cc for rtjni.
namespace jvm {
struct Object {
  enum Kind { kString, kClass, kThrowable } kind;
  std::u16string s;       // of strings
  std::string name;       // of classes and throwables
  int borrowed = 0;       // outstanding Get...Chars
};
struct Thread {
  JNIEnv env;             // must be first: natives get &env
  Object* pending = nullptr;
  Task* task = nullptr;
  std::vector<Object*> locals;
  std::map<const void*, Object*> loans;
};
struct Natives {
  void (*init)(JNIEnv*, jobject, jstring) = nullptr;
  jstring (*normalize)(JNIEnv*, jobject, jstring) = nullptr;
  jstring (*inverse)(JNIEnv*, jobject, jstring) = nullptr;
} natives;

long calls = 0, fail_at = -1, failed = 0;
std::vector<Object*>* all = nullptr;
JNINativeInterface_ table_;
JNIInvokeInterface_ vm_table;
JavaVM vm;
std::vector<Thread*>* threads = nullptr;

void misuse(const char* what) {
  ++quiet;
  printf("misuse %s\n", what);
  finish_line("misuse");
}

Object* fresh(Object::Kind k, Thread* t) {
  Object* o = new Object;
  o->kind = k;
  all->push_back(o);
  if (t) t->locals.push_back(o);
  return o;
}

// Every JNI call enters here.  safe: allowed while an exception is pending.
Thread* enter(JNIEnv* env, const char* what, bool safe = false) {
  Thread* t = reinterpret_cast<Thread*>(env);
  bool known = false;
  for (Thread* u : *threads) known = known || u == t;
  if (!known) misuse("JNI call with a foreign environment");
  if (t->task && t->task != me) misuse("JNI environment of one thread used by another");
  if (t->pending && !safe) misuse((std::string(what) + " called with an exception pending").c_str());
  return t;
}
bool fails(Thread* t) {
  if (!counting || fail_at < 0 || ++calls != fail_at) return false;
  ++failed, ++faults_here;
  t->pending = fresh(Object::kThrowable, t);
  t->pending->name = "java/lang/OutOfMemoryError";
  return true;
}
Object* obj(jobject o, Object::Kind k, const char* what) {
  Object* x = reinterpret_cast<Object*>(o);
  bool known = false;
  for (Object* y : *all) known = known || x == y;
  if (!x || !known || x->kind != k) misuse((std::string(what) + " of something else").c_str());
  return x;
}
jobject ref(Object* o) { return reinterpret_cast<jobject>(o); }

std::string modified(const std::u16string& s) {
  std::string out;
  for (char16_t c : s) {
    if (c != 0 && c < 0x80) {
      out.push_back(static_cast<char>(c));
    } else if (c < 0x800) {
      out.push_back(static_cast<char>(0xC0 | (c >> 6)));
      out.push_back(static_cast<char>(0x80 | (c & 0x3F)));
    } else {
      out.push_back(static_cast<char>(0xE0 | (c >> 12)));
      out.push_back(static_cast<char>(0x80 | ((c >> 6) & 0x3F)));
      out.push_back(static_cast<char>(0x80 | (c & 0x3F)));
    }
  }
  return out;
}
bool from_modified(const char* p, std::u16string* out) {
  for (size_t i = 0; p[i];) {
    unsigned char a = p[i];
    auto cont = [&](size_t k) { return (static_cast<unsigned char>(p[i + k]) & 0xC0) == 0x80; };
    if (a < 0x80) {
      out->push_back(a);
      i += 1;
    } else if ((a & 0xE0) == 0xC0 && cont(1)) {
      out->push_back(((a & 0x1F) << 6) | (p[i + 1] & 0x3F));
      i += 2;
    } else if ((a & 0xF0) == 0xE0 && cont(1) && cont(2)) {
      out->push_back(((a & 0x0F) << 12) | ((p[i + 1] & 0x3F) << 6) | (p[i + 2] & 0x3F));
      i += 3;
    } else {
      return false;
    }
  }
  return true;
}

template <class C>
C* lend(Thread* t, Object* o, const C* data, size_t n) {
  C* p = static_cast<C*>(__real_malloc((n + 1) * sizeof(C)));
  memcpy(p, data, n * sizeof(C));
  p[n] = 0;
  t->loans[p] = o;
  ++o->borrowed;
  return p;
}
void give_back(Thread* t, const void* p, const char* what) {
  auto it = t->loans.find(p);
  if (it == t->loans.end()) misuse((std::string(what) + " of something not borrowed").c_str());
  --it->second->borrowed;
  t->loans.erase(it);
  __real_free(const_cast<void*>(p));
}

#define JNI(ret, name, ...) ret JNICALL name(JNIEnv* env, ##__VA_ARGS__)
JNI(jint, GetVersion) { return JNI_VERSION_1_6; }
JNI(jclass, FindClass, const char* name) {
  Quiet q;
  Thread* t = enter(env, "FindClass");
  if (fails(t)) return nullptr;
  Object* o = fresh(Object::kClass, t);
  o->name = name;
  return static_cast<jclass>(ref(o));
}
JNI(jint, ThrowNew, jclass c, const char*) {
  Quiet q;
  Thread* t = enter(env, "ThrowNew");
  Object* o = obj(c, Object::kClass, "ThrowNew");
  if (fails(t)) return -1;
  t->pending = fresh(Object::kThrowable, t);
  t->pending->name = o->name;
  return 0;
}
JNI(jint, Throw, jthrowable x) {
  Quiet q;
  Thread* t = enter(env, "Throw");
  t->pending = obj(x, Object::kThrowable, "Throw");
  return 0;
}
JNI(jthrowable, ExceptionOccurred) { return static_cast<jthrowable>(ref(enter(env, "", true)->pending)); }
JNI(jboolean, ExceptionCheck) { return enter(env, "", true)->pending != nullptr; }
JNI(void, ExceptionClear) { enter(env, "", true)->pending = nullptr; }
JNI(void, ExceptionDescribe) { enter(env, "", true); }
JNI(void, FatalError, const char* msg) { misuse((std::string("FatalError: ") + msg).c_str()); }
JNI(void, DeleteLocalRef, jobject) { enter(env, "", true); }
JNI(jobject, NewRef, jobject o) { return enter(env, "NewRef"), o; }
JNI(void, DropRef, jobject) { enter(env, "", true); }
JNI(jint, PushLocalFrame, jint) { return enter(env, "PushLocalFrame"), 0; }
JNI(jobject, PopLocalFrame, jobject o) { return enter(env, "", true), o; }
JNI(jint, EnsureLocalCapacity, jint) { return enter(env, "EnsureLocalCapacity"), 0; }
JNI(jboolean, IsSameObject, jobject a, jobject b) { return enter(env, "IsSameObject"), a == b; }
JNI(jsize, GetStringLength, jstring s) { return enter(env, "GetStringLength"), static_cast<jsize>(obj(s, Object::kString, "GetStringLength")->s.size()); }
JNI(jsize, GetStringUTFLength, jstring s) {
  Quiet q;
  return enter(env, "GetStringUTFLength"), static_cast<jsize>(modified(obj(s, Object::kString, "GetStringUTFLength")->s).size());
}
JNI(const char*, GetStringUTFChars, jstring s, jboolean* copy) {
  Quiet q;
  Thread* t = enter(env, "GetStringUTFChars");
  Object* o = obj(s, Object::kString, "GetStringUTFChars");
  if (fails(t)) return nullptr;
  if (copy) *copy = JNI_TRUE;
  std::string m = modified(o->s);
  return lend(t, o, m.data(), m.size());
}
JNI(void, ReleaseStringUTFChars, jstring, const char* p) {
  Quiet q;
  give_back(enter(env, "", true), p, "ReleaseStringUTFChars");
}
JNI(const jchar*, GetStringChars, jstring s, jboolean* copy) {
  Quiet q;
  Thread* t = enter(env, "GetStringChars");
  Object* o = obj(s, Object::kString, "GetStringChars");
  if (fails(t)) return nullptr;
  if (copy) *copy = JNI_TRUE;
  return lend(t, o, reinterpret_cast<const jchar*>(o->s.data()), o->s.size());
}
JNI(void, ReleaseStringChars, jstring, const jchar* p) {
  Quiet q;
  give_back(enter(env, "", true), p, "ReleaseStringChars");
}
JNI(void, GetStringRegion, jstring s, jsize at, jsize n, jchar* buf) {
  Quiet q;
  Thread* t = enter(env, "GetStringRegion");
  Object* o = obj(s, Object::kString, "GetStringRegion");
  if (fails(t)) return;
  if (at < 0 || n < 0 || static_cast<size_t>(at) + n > o->s.size()) {
    t->pending = fresh(Object::kThrowable, t);
    t->pending->name = "java/lang/StringIndexOutOfBoundsException";
    return;
  }
  memcpy(buf, o->s.data() + at, n * sizeof(jchar));
}
JNI(void, GetStringUTFRegion, jstring s, jsize at, jsize n, char* buf) {
  Quiet q;
  Thread* t = enter(env, "GetStringUTFRegion");
  Object* o = obj(s, Object::kString, "GetStringUTFRegion");
  if (fails(t)) return;
  if (at < 0 || n < 0 || static_cast<size_t>(at) + n > o->s.size()) {
    t->pending = fresh(Object::kThrowable, t);
    t->pending->name = "java/lang/StringIndexOutOfBoundsException";
    return;
  }
  std::string m = modified(o->s.substr(at, n));
  memcpy(buf, m.data(), m.size());
  buf[m.size()] = 0;
}
JNI(jstring, NewString, const jchar* p, jsize n) {
  Quiet q;
  Thread* t = enter(env, "NewString");
  if (fails(t)) return nullptr;
  Object* o = fresh(Object::kString, t);
  o->s.assign(reinterpret_cast<const char16_t*>(p), n);
  return static_cast<jstring>(ref(o));
}
JNI(jstring, NewStringUTF, const char* p) {
  Quiet q;
  Thread* t = enter(env, "NewStringUTF");
  if (!p) misuse("NewStringUTF of a null pointer");
  std::u16string s;
  if (!from_modified(p, &s)) misuse("NewStringUTF of bytes that are not modified UTF-8");
  if (fails(t)) return nullptr;
  Object* o = fresh(Object::kString, t);
  o->s = s;
  return static_cast<jstring>(ref(o));
}
JNI(jint, RegisterNatives, jclass, const JNINativeMethod* m, jint n) {
  Quiet q;
  enter(env, "RegisterNatives");
  for (jint i = 0; i < n; ++i) {
    std::string name = m[i].name, sig = m[i].signature;
    if (sig != (name == "init" ? "(Ljava/lang/String;)V" : "(Ljava/lang/String;)Ljava/lang/String;")) return -1;
    if (name == "init") natives.init = reinterpret_cast<decltype(natives.init)>(m[i].fnPtr);
    else if (name == "normalize") natives.normalize = reinterpret_cast<decltype(natives.normalize)>(m[i].fnPtr);
    else if (name == "inverse_normalize") natives.inverse = reinterpret_cast<decltype(natives.inverse)>(m[i].fnPtr);
    else return -1;
  }
  return 0;
}
JNI(jint, GetJavaVM, JavaVM** out) {
  enter(env, "GetJavaVM");
  *out = &vm;
  return 0;
}
void unsupported() {
  ++quiet;
  printf("unsupported a JNI function the stand-in does not have\n");
  finish_line("unsupported");
}
jint JNICALL VmGetEnv(JavaVM*, void** out, jint) {
  Quiet q;
  for (Thread* t : *threads)
    if (t->task == me) *out = &t->env;
  return JNI_OK;
}
jint JNICALL VmAttach(JavaVM* v, void** out, void*) { return VmGetEnv(v, out, 0); }
jint JNICALL VmDetach(JavaVM*) { return JNI_OK; }

void make_tables() {
  all = new std::vector<Object*>;
  threads = new std::vector<Thread*>;
  void** p = reinterpret_cast<void**>(&table_);
  for (size_t i = 0; i < sizeof table_ / sizeof *p; ++i) p[i] = reinterpret_cast<void*>(unsupported);
  table_.GetVersion = GetVersion;
  table_.FindClass = FindClass;
  table_.ThrowNew = ThrowNew;
  table_.Throw = Throw;
  table_.ExceptionOccurred = ExceptionOccurred;
  table_.ExceptionCheck = ExceptionCheck;
  table_.ExceptionClear = ExceptionClear;
  table_.ExceptionDescribe = ExceptionDescribe;
  table_.FatalError = FatalError;
  table_.DeleteLocalRef = DeleteLocalRef;
  table_.NewGlobalRef = NewRef;
  table_.NewLocalRef = NewRef;
  table_.DeleteGlobalRef = DropRef;
  table_.PushLocalFrame = PushLocalFrame;
  table_.PopLocalFrame = PopLocalFrame;
  table_.EnsureLocalCapacity = EnsureLocalCapacity;
  table_.IsSameObject = IsSameObject;
  table_.GetStringLength = GetStringLength;
  table_.GetStringUTFLength = GetStringUTFLength;
  table_.GetStringUTFChars = GetStringUTFChars;
  table_.ReleaseStringUTFChars = ReleaseStringUTFChars;
  table_.GetStringChars = GetStringChars;
  table_.ReleaseStringChars = ReleaseStringChars;
  table_.GetStringCritical = GetStringChars;
  table_.ReleaseStringCritical = ReleaseStringChars;
  table_.GetStringRegion = GetStringRegion;
  table_.GetStringUTFRegion = GetStringUTFRegion;
  table_.NewString = NewString;
  table_.NewStringUTF = NewStringUTF;
  table_.RegisterNatives = RegisterNatives;
  table_.GetJavaVM = GetJavaVM;
  p = reinterpret_cast<void**>(&vm_table);
  for (size_t i = 0; i < sizeof vm_table / sizeof *p; ++i) p[i] = reinterpret_cast<void*>(unsupported);
  vm_table.GetEnv = VmGetEnv;
  vm_table.AttachCurrentThread = VmAttach;
  vm_table.AttachCurrentThreadAsDaemon = VmAttach;
  vm_table.DetachCurrentThread = VmDetach;
  vm.functions = &vm_table;
}
Thread* thread_of(Task* task) {
  for (Thread* t : *threads)
    if (t->task == task) return t;
  Thread* t = new Thread;
  t->env.functions = &table_;
  t->task = task;
  threads->push_back(t);
  return t;
}

template <class F>
void native(F* f, const char* name) {
  if (!*f) *f = reinterpret_cast<F>(dlsym(RTLD_DEFAULT, (std::string("Java_com_wenet_WeTextProcessing_WeTextProcessing_") + name).c_str()));
  if (!*f) misuse((std::string("no native method ") + name).c_str());
}

// The library is loaded: System.loadLibrary.
void setup() {
  make_tables();
  thread_of(nullptr);
  auto on_load = reinterpret_cast<jint(JNICALL*)(JavaVM*, void*)>(dlsym(RTLD_DEFAULT, "JNI_OnLoad"));
  if (on_load) {
    std::string exc;
    jint v = api(&exc, [&] { return on_load(&vm, nullptr); });
    if (!exc.empty() || v < JNI_VERSION_1_1) misuse("JNI_OnLoad fails");
  }
  native(&natives.init, "init");
  native(&natives.normalize, "normalize");
  native(&natives.inverse, "inverse_normalize");
}

std::string units(const std::u16string& s) {
  std::string b;
  for (char16_t c : s) {
    b.push_back(static_cast<char>(c >> 8));
    b.push_back(static_cast<char>(c & 0xFF));
  }
  return hex(b);
}

void run(Task* task, const char* tag, const std::string& kind, const std::string& arg) {
  Thread* t = thread_of(task);
  Object* in = nullptr;
  if (arg != "null") {
    in = fresh(Object::kString, t);
    std::string b = unhex(arg);
    for (size_t i = 0; i + 1 < b.size(); i += 2)
      in->s.push_back(static_cast<char16_t>(static_cast<unsigned char>(b[i]) << 8 | static_cast<unsigned char>(b[i + 1])));
  }
  const std::u16string before = in ? in->s : std::u16string();
  jstring s = static_cast<jstring>(ref(in));
  jstring out = nullptr;
  std::string exc;
  if (kind == "jinit")
    api(&exc, [&] {
      natives.init(&t->env, nullptr, s);
      return 0;
    });
  else
    out = api(&exc, [&] { return (kind == "jnorm" ? natives.normalize : natives.inverse)(&t->env, nullptr, s); });
  for (auto& loan : t->loans) {
    emit("unreleased %s\n", tag);
    __real_free(const_cast<void*>(loan.first));
  }
  t->loans.clear();
  if (in && in->s != before) misuse("a Java string was changed");
  if (!exc.empty()) {
    emit("res %s %ld exc %s\n", tag, faults_here, exc.c_str());
  } else if (t->pending) {
    emit("res %s %ld thrown %s\n", tag, faults_here, t->pending->name.c_str());
  } else if (kind == "jinit") {
    emit("res %s %ld ok -\n", tag, faults_here);
  } else if (!out) {
    emit("res %s %ld null -\n", tag, faults_here);
  } else {
    emit("res %s %ld ok %s\n", tag, faults_here, units(obj(out, Object::kString, "return")->s).c_str());
  }
  t->pending = nullptr;
  for (Object* o : t->locals)
    for (size_t i = 0; i < all->size(); ++i)
      if ((*all)[i] == o) {
        (*all)[i] = all->back();
        all->pop_back();
        delete o;
        break;
      }
  t->locals.clear();
}
}  // namespace jvm
