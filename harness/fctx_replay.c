// Native check of the context-switch assembly with given register values.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
typedef struct { void *fctx, *data; } tr_t;
tr_t copp_jump_fcontext_v2(void*, void*);
void* copp_make_fcontext_v2(void*, size_t, void (*)(tr_t));
tr_t copp_ontop_fcontext_v2(void*, void*, tr_t (*)(tr_t));
uint64_t in[8], out[8], in_data, back_data, got_rax, got_rdx, got_rsp0, got_rsp1, ent[4]; uint32_t mx_in, mx_out, mx_seen; uint16_t cw_in, cw_out, cw_seen; void* target; void* self_seen; int mode; void* tfn; int emode, ebad, ebadsp, eres; void* tfn2; uint64_t edata; uint32_t emx; uint16_t ecw;
// do_switch: load callee-saved registers from in[], switch, store them to out[]
__asm__(".text\n.globl do_switch\ndo_switch:\n push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n sub $24,%rsp\n stmxcsr 8(%rsp)\n fnstcw 12(%rsp)\n"
 " mov in(%rip),%rbx\n mov in+8(%rip),%rbp\n mov in+16(%rip),%r12\n mov in+24(%rip),%r13\n mov in+32(%rip),%r14\n mov in+40(%rip),%r15\n ldmxcsr mx_in(%rip)\n fldcw cw_in(%rip)\n mov %rsp,got_rsp0(%rip)\n mov target(%rip),%rdi\n mov in_data(%rip),%rsi\n mov tfn(%rip),%rdx\n mov mode(%rip),%eax\n test %eax,%eax\n jnz 1f\n call copp_jump_fcontext_v2\n jmp 2f\n1: call copp_ontop_fcontext_v2\n2: mov %rsp,got_rsp1(%rip)\n"
 " mov %rax,got_rax(%rip)\n mov %rdx,got_rdx(%rip)\n mov %rbx,out(%rip)\n mov %rbp,out+8(%rip)\n mov %r12,out+16(%rip)\n mov %r13,out+24(%rip)\n mov %r14,out+32(%rip)\n mov %r15,out+40(%rip)\n stmxcsr mx_out(%rip)\n fnstcw cw_out(%rip)\n ldmxcsr 8(%rsp)\n fldcw 12(%rsp)\n add $24,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n"
 // entry: record, scramble everything, jump back
 ".globl entry_asm\nentry_asm:\n mov %rsp,ent(%rip)\n mov %rdi,ent+8(%rip)\n mov %rsi,ent+16(%rip)\n stmxcsr mx_seen(%rip)\n fnstcw cw_seen(%rip)\n mov $0x1111,%rbx\n mov $0x2222,%rbp\n mov $0x3333,%r12\n mov $0x4444,%r13\n mov $0x5555,%r14\n mov $0x6666,%r15\n movl $0x1f80,-4(%rsp)\n ldmxcsr -4(%rsp)\n movw $0x37f,-4(%rsp)\n fldcw -4(%rsp)\n sub $8,%rsp\n3: mov %rsp,ent+24(%rip)\n mov back_data(%rip),%rsi\n mov tfn2(%rip),%rdx\n mov emode(%rip),%eax\n test %eax,%eax\n jnz 4f\n call copp_jump_fcontext_v2\n jmp 5f\n4: call copp_ontop_fcontext_v2\n"
 "5: mov %rax,%rdi\n xor %eax,%eax\n cmp $0x1111,%rbx\n jne 6f\n cmp $0x2222,%rbp\n jne 6f\n cmp $0x3333,%r12\n jne 6f\n cmp $0x4444,%r13\n jne 6f\n cmp $0x5555,%r14\n jne 6f\n cmp $0x6666,%r15\n jne 6f\n jmp 7f\n6: incl ebad(%rip)\n7: cmp %rsp,ent+24(%rip)\n je 8f\n incl ebadsp(%rip)\n8: stmxcsr emx(%rip)\n fnstcw ecw(%rip)\n mov %rdx,edata(%rip)\n incl eres(%rip)\n movl $0x1f80,-4(%rsp)\n ldmxcsr -4(%rsp)\n movw $0x37f,-4(%rsp)\n fldcw -4(%rsp)\n jmp 3b\n"
 ".globl entry_ret\nentry_ret:\n ret\n");
extern void do_switch(void); extern void entry_asm(tr_t); extern void entry_ret(tr_t);
static void* onf2; static tr_t ontopfn2(tr_t t) { onf2 = t.data; return t; }
static void* onf; static void* ond; static tr_t ontopfn(tr_t t) { onf = t.fctx; ond = t.data; return t; }
#define BAD(m) do { printf("BAD %s\n", m); bad = 1; } while (0)
int main(int argc, char** argv) { // argv: 6 regs, data, mxcsr, fcw, top offset, tsx
  int bad = 0; for (int i = 0; i < 6; i++) in[i] = argc > 1 + i ? strtoull(argv[1 + i], 0, 0) : 0x1234567800000000ull + i; in_data = argc > 7 ? strtoull(argv[7], 0, 0) : 77; mx_in = argc > 8 ? (strtoul(argv[8], 0, 0) & 0xe000) | 0x1f80 : 0x3f80; cw_in = argc > 9 ? (strtoul(argv[9], 0, 0) & 0xf00) | 0x7f : 0x77f; unsigned off = argc > 10 ? strtoul(argv[10], 0, 0) & 63 : 0; int tsx = argc > 11 ? atoi(argv[11]) : 1; back_data = ~in_data;
  alarm(20);
  char* stk = aligned_alloc(4096, 65536); memset(stk, 0xab, 65536); char* top = stk + 32768 - off;
  uint32_t m0; uint16_t c0; __asm__ volatile("stmxcsr %0" : "=m"(m0)); __asm__ volatile("fnstcw %0" : "=m"(c0)); uint32_t cm = (mx_in ^ 0x2000); uint16_t cc = (cw_in ^ 0x400); __asm__ volatile("ldmxcsr %0" ::"m"(cm)); __asm__ volatile("fldcw %0" ::"m"(cc));
  void* h = copp_make_fcontext_v2(top, 8192, entry_asm); __asm__ volatile("ldmxcsr %0" ::"m"(m0)); __asm__ volatile("fldcw %0" ::"m"(c0));
  for (char* q = top; q < stk + 65536; q++) if (*(unsigned char*)q != 0xab) { BAD("make wrote above the stack top"); break; }
  if ((char*)h > top || (char*)h < top - 512) BAD("handle outside of the stack");
  target = h; do_switch();
  if (ent[0] >= (uint64_t)top || (ent[0] + 8) % 16) BAD("entry stack pointer");
  if (ent[2] != in_data) BAD("data at entry"); if (!tsx && (mx_seen != cm || cw_seen != cc)) BAD("control words at entry");
  for (int i = 0; i < 6; i++) if (in[i] != out[i]) BAD("callee-saved register changed");
  if (got_rsp0 != got_rsp1) BAD("stack pointer changed"); if (got_rdx != back_data) BAD("data returned"); 
  if (!tsx && (mx_out != mx_in || (cw_out & 0xf7f) != (cw_in & 0xf7f))) BAD("control words");
  if (tsx && (mx_out != 0x1f80)) BAD("control words loaded in a build that must leave them alone");
#define ECHECK(w) do { if (ebad) BAD("resumed entry: callee-saved register changed" w); if (ebadsp) BAD("resumed entry: stack pointer changed" w); if (edata != in_data) BAD("resumed entry: data" w); if (!tsx && (emx != 0x1f80 || (ecw & 0xf7f) != 0x37f)) BAD("resumed entry: control words" w); if (tsx && ((emx ^ mx_in) & 0xffc0 || (ecw & 0xf7f) != (cw_in & 0xf7f))) BAD("resumed entry: control words not left alone" w); ebad = ebadsp = 0; } while (0)
  target = (void*)got_rax; do_switch(); ECHECK(""); for (int i = 0; i < 6; i++) if (in[i] != out[i]) BAD("callee-saved register changed (second switch)"); if (got_rdx != back_data) BAD("data returned (second switch)");
  // on-top call on the suspended entry
  tr_t (*f)(tr_t) = ontopfn; tfn = (void*)f; mode = 1; target = (void*)got_rax; do_switch(); ECHECK(" (on-top)"); if ((uint64_t)ond != in_data) BAD("on-top data"); if (got_rdx != back_data) BAD("data returned (suspended by on-top)"); if (got_rsp0 != got_rsp1) BAD("stack pointer changed (suspended by on-top)"); for (int i = 0; i < 6; i++) if (in[i] != out[i]) BAD("callee-saved register changed (on-top)");
  f = ontopfn2; tfn2 = (void*)f; emode = 1; for (mode = 1; mode >= 0; mode--) { onf2 = 0; target = (void*)got_rax; do_switch(); ECHECK(" (both on-top)"); if ((uint64_t)onf2 != back_data || got_rdx != back_data) BAD("on-top data back"); if (got_rsp0 != got_rsp1) BAD("stack pointer changed (resumed by on-top)"); for (int i = 0; i < 6; i++) if (in[i] != out[i]) BAD("callee-saved register changed (resumed by on-top)"); if (!tsx && (mx_out != mx_in || (cw_out & 0xf7f) != (cw_in & 0xf7f))) BAD("control words (resumed by on-top)"); } mode = 0; emode = 0; if (eres != 4) BAD("number of resumptions");
  fflush(stdout); pid_t p = fork(); if (!p) { void* g = copp_make_fcontext_v2(top, 8192, entry_ret); target = g; do_switch(); _exit(9); } int s; waitpid(p, &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s) != 0) BAD("returning from the entry function does not exit(0)");
  printf(bad ? "REPLAY-BAD\n" : "REPLAY-OK\n"); return bad;
}
