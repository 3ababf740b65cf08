// Minimal stack switching (no system calls), with ASan annotations.
#pragma once
#include <sys/mman.h>
#include <cstddef>
#include <cstdlib>
#include <cstdint>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define MC_FIBER_ASAN 1
#endif
#if !defined(__x86_64__)
#error "written for x86-64"
#endif
extern "C" void mc_switch(void**save,void*to);
__asm__(".text\n.p2align 4\n.weak mc_switch\n.type mc_switch,@function\nmc_switch:\n"
 "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
 "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
 "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n.size mc_switch,.-mc_switch\n");
namespace mc {
struct Fiber { void*sp=nullptr; char*stack=nullptr; size_t size=0; void*fake=nullptr; };
inline char* fiber_stack(size_t sz){ void*p=mmap(nullptr,sz,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED) abort(); return (char*)p; }
inline void fiber_init(Fiber&f,char*stack,size_t sz,void(*entry)()){ f.stack=stack; f.size=sz; f.fake=nullptr; uint64_t*t=(uint64_t*)(stack+sz-64); t=(uint64_t*)((uintptr_t)t&~15ull); *--t=0; *--t=(uint64_t)entry; for(int i=0;i<6;i++) *--t=0; f.sp=t; }
}
