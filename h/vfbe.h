/* Ghost environment for instruction selection and legalisation: a machine
 * node is represented by the value its operands and immediate fields decode to
 * under the architecture's rules. The real source file of the backend is
 * included; the generated node constructors (which only fill in attributes)
 * are replaced by their contract: "denotes what the instruction computes", and
 * they require that every immediate fits its instruction field. */
#ifndef BE_H
#define BE_H
#include "vf.h"
#include "irnode_t.h"
#include "irgraph_t.h"
#include "irmode_t.h"
#include "ircons_t.h"
#include "iredges_t.h"
#include "irop_t.h"
#include "iropt_t.h"
#include "tv_t.h"
#include "betranshlp.h"
#include "benode.h"
#include "bepeephole.h"
#include "besched.h"
#include "beirg.h"
#include "../lib/vf.h"
typedef uint32_t u32;
#include "bediagnostic.h"
#undef get_irn_irg
#define get_irn_irg(n) ((ir_graph*)NULL)
#undef get_irn_dbg_info
#define get_irn_dbg_info(n) ((dbg_info*)NULL)
#undef get_nodes_block
#define get_nodes_block(n) ((ir_node*)NULL)

static bool vf_enc = true;   /* every immediate fits its field */
static void *vf_attrs;       /* the attributes of the node under test */
#undef get_irn_generic_attr
#undef get_irn_generic_attr_const
#define get_irn_generic_attr(n) vf_attr_of(n)
#define get_irn_generic_attr_const(n) ((void const*)vf_attr_of(n))
static ir_op vf_op_const, vf_op_other, vf_op_not;
ir_op *op_Const = &vf_op_const, *op_Not = &vf_op_not, *op_Conv, *op_Mul, *op_Minus, *op_And, *op_Or, *op_Add, *op_Eor, *op_Sub, *op_Shl, *op_Shr, *op_Shrs, *op_Proj, *op_Member, *op_Address, *op_Phi, *op_Cmp;
static ir_mode vf_mode;
struct vf_nd { ir_node n; u32 val; char attr[128]; };
struct vf_ar { ir_arr_descr d; ir_node *e[6]; };
#define V(n) (((struct vf_nd*)(n))->val)
static void *vf_attr_of(ir_node const *n) { return ((struct vf_nd*)n)->attr; }
void ir_verify_arr(void const *a) { }
static ir_node *GN(ir_op *op, unsigned k)
{
	struct vf_nd *n = malloc(sizeof(*n));
	ir_arr_descr *a = malloc(sizeof(struct vf_ar));
	ASSUME(n != NULL && a != NULL);
	a->nelts = a->allocated = k + 1;
	n->n.kind = k_ir_node; n->n.op = op; n->n.mode = &vf_mode; n->n.in = (ir_node**)a->elts;
	n->n.in[0] = NULL;
	return &n->n;
}
static ir_node *G(u32 v) { ir_node *n = GN(&vf_op_other, 0); V(n) = v; return n; }
static ir_node *GB(ir_op *op, ir_node *l, ir_node *r, u32 v)
{
	ir_node *n = GN(op, 2); V(n) = v; n->in[1] = l; n->in[2] = r;
	return n;
}
/* the one constant of a harness */
static long vf_cv;
static ir_node *GC(long c, u32 v) { ir_node *n = GN(op_Const, 0); vf_cv = c; V(n) = v; n->attr.con.tarval = NULL; return n; }
long get_tarval_long(ir_tarval const *t) { return vf_cv; }
int tarval_is_long(ir_tarval const *t) { return 1; }
int tarval_is_null(ir_tarval const *t) { return vf_cv == 0; }
int tarval_is_one(ir_tarval const *t) { return vf_cv == 1; }
/* transforming a node gives a node of the same value (contract) */
#ifndef VF_TRANSFORM
#define VF_TRANSFORM(n)
#endif
ir_node *be_transform_node(ir_node *n) { VF_TRANSFORM(n); ir_node *r = GN(&vf_op_other, 0); V(r) = V(n); return r; }
ir_node *be_transform_nodes_block(ir_node const *n) { return NULL; }
ir_node *be_skip_downconv(ir_node *n, bool s) { return n; }
ir_node *be_skip_sameconv(ir_node *n) { return n; }
ir_node *get_binop_left(ir_node const *n) { return n->in[1]; }
ir_node *get_binop_right(ir_node const *n) { return n->in[2]; }
#undef is_Id
#undef skip_Id
int is_Id(ir_node const *n) { return 0; }
ir_node *skip_Id(ir_node *n) { return n; }
/* replacement of a node: recorded */
static ir_node *vf_repl;
void be_peephole_replace(ir_node *o, ir_node *n) { vf_repl = n; }
void (sched_add_before)(ir_node *b, ir_node *n) { }
void (sched_add_after)(ir_node *b, ir_node *n) { }
#define arch_set_irn_register(n, r) ((void)(n))
void set_irn_n(ir_node *n, int i, ir_node *v) { n->in[i + 1] = v; }
static void vf_mode_init(unsigned bits, int sign)
{
	vf_mode.sort = irms_int_number; vf_mode.size = bits; vf_mode.sign = sign; vf_mode.arithmetic = irma_twos_complement;
	vf_mode.modulo_shift = 32;
}
#define FITS(v, lo, hi) do { if (!((long)(v) >= (lo) && (long)(v) <= (hi))) vf_enc = false; } while (0)
#endif
