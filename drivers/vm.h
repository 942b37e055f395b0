// calling the real VM from a driver
#ifndef VM_H
#define VM_H
#include "types.h"
#include "runtime.h"
#include "reader.h"
static Cora *vm;
static void vm_init(void) { vm = coraInit(); }
static Obj vm_apply(Obj fn, int n, Obj *args) {
	coraCall(vm, fn, n, args);
	coraRun(vm);
	return vm->res;
}
static Obj vm_fn(char *name) { return symbolGet(vm, intern(name)); }
#define VMCALL(name, ...) ({ Obj a_[] = {__VA_ARGS__}; vm_apply(vm_fn(name), sizeof a_ / sizeof a_[0], a_); })
static Obj mklist(int n, Obj *v, Obj tail) {
	for (int i = n - 1; i >= 0; i--) tail = makeCons(vm->gc, v[i], tail);
	return tail;
}
#endif
