/* The hooks that -fsanitize=thread calls, served by the deterministic scheduler of lock.cpp. */
#define NOSAN __attribute__((no_sanitize("thread"),noinline))
void vp_touch(const void* p,int size);
#define touch vp_touch
#define RW(n) NOSAN void __tsan_read##n(void* p) { touch(p,n); } NOSAN void __tsan_write##n(void* p) { touch(p,n); } NOSAN void __tsan_unaligned_read##n(void* p) { touch(p,n); } NOSAN void __tsan_unaligned_write##n(void* p) { touch(p,n); } NOSAN void __tsan_volatile_read##n(void* p) { touch(p,n); } NOSAN void __tsan_volatile_write##n(void* p) { touch(p,n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
NOSAN void __tsan_init() {} NOSAN void __tsan_func_entry(void* a) {} NOSAN void __tsan_func_exit() {}
NOSAN void __tsan_vptr_update(void** a,void* b) {} NOSAN void __tsan_vptr_read(void** a) {}
NOSAN void __tsan_read_range(void* a,unsigned long n) {} NOSAN void __tsan_write_range(void* a,unsigned long n) {}
NOSAN void __tsan_atomic_thread_fence(int m) { __sync_synchronize(); } NOSAN void __tsan_atomic_signal_fence(int m) {}
#define AT(T,B,S) \
NOSAN T __tsan_atomic##B##_load(const volatile T* a,int m) { touch((void*)a,S); return __atomic_load_n(a,5); } \
NOSAN void __tsan_atomic##B##_store(volatile T* a,T v,int m) { touch((void*)a,S); __atomic_store_n(a,v,5); } \
NOSAN T __tsan_atomic##B##_exchange(volatile T* a,T v,int m) { touch((void*)a,S); return __atomic_exchange_n(a,v,5); } \
NOSAN T __tsan_atomic##B##_fetch_add(volatile T* a,T v,int m) { touch((void*)a,S); return __atomic_fetch_add(a,v,5); } \
NOSAN T __tsan_atomic##B##_fetch_sub(volatile T* a,T v,int m) { touch((void*)a,S); return __atomic_fetch_sub(a,v,5); } \
NOSAN T __tsan_atomic##B##_fetch_and(volatile T* a,T v,int m) { touch((void*)a,S); return __atomic_fetch_and(a,v,5); } \
NOSAN T __tsan_atomic##B##_fetch_or(volatile T* a,T v,int m) { touch((void*)a,S); return __atomic_fetch_or(a,v,5); } \
NOSAN T __tsan_atomic##B##_fetch_xor(volatile T* a,T v,int m) { touch((void*)a,S); return __atomic_fetch_xor(a,v,5); } \
NOSAN int __tsan_atomic##B##_compare_exchange_strong(volatile T* a,T* e,T v,int m1,int m2) { touch((void*)a,S); return __atomic_compare_exchange_n(a,e,v,0,5,5); } \
NOSAN int __tsan_atomic##B##_compare_exchange_weak(volatile T* a,T* e,T v,int m1,int m2) { touch((void*)a,S); return __atomic_compare_exchange_n(a,e,v,0,5,5); } \
NOSAN T __tsan_atomic##B##_compare_exchange_val(volatile T* a,T e,T v,int m1,int m2) { touch((void*)a,S); __atomic_compare_exchange_n(a,&e,v,0,5,5); return e; }
AT(unsigned char,8,1) AT(unsigned short,16,2) AT(unsigned int,32,4) AT(unsigned long,64,8)
