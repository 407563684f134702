from spec import spec
from fractions import Fraction
NATIVE = 8
def lin(S, A, W, C, n): return lambda i, j: S.sum(n, lambda t: A(i, t) * W(t, j)) + C(j)
def had(A, W): return lambda i, j: A(i, j) * W(j)
@spec("vf_predict")
def _(S):
    b, n, k = S.dims("b", "n", "k"); S.out("R", [b, k], lin(S, S.A("A", b, n), S.A("W", n, k), S.A("C", k), n)); S.out("X", [b, n], S.A("A", b, n))
@spec("vf_predict_again")
def _(S):
    b, n, k, p = S.dims("b", "n", "k", "p"); W = S.A("W", n, k); C = S.A("C", k)
    S.out("R", [b, k], lin(S, S.A("A", b, n), W, C, n)); S.out("U", [p, k], lin(S, S.A("B", p, n), W, C, n))
@spec("vf_predict_weights")
def _(S):
    b, n, k = S.dims("b", "n", "k"); S.out("U", [b, k], lin(S, S.A("B", b, n), S.A("V", n, k), S.A("C", k), n))
@spec("vf_predict_dropout")
def _(S):
    b, n = S.dims("b", "n"); S.out("R", [b, n], S.A("A", b, n))
@spec("vf_predict_other_model")
def _(S):
    b, n = S.dims("b", "n"); A = S.A("A", b, n); B = S.A("B", b, n); C = S.A("C", b, n); W = S.A("W", n)
    S.out("R", [b, n], lambda i, j: A(i, j) + W(j)); S.out("S", [b, n], had(B, W)); S.out("T", [b, n], lambda i, j: C(i, j) + W(j))
@spec("vf_parts")
def _(S):
    b, n = S.dims("b", "n"); A = S.A("A", b, n); W = S.A("W", n); S.out("R", [b, n], lambda i, j: A(i, j) + W(j))
def grads(S, b, n, k, A, dA=lambda a: 1, frozen=False):
    W = S.A("W", n, k); G = S.A("G", b, k); z = S.q(0)
    S.out("GW", [n, k], lambda t, j: z if frozen else S.sum(b, lambda i: A(i, t) * G(i, j))); S.out("GC", [k], lambda j: z if frozen else S.sum(b, lambda i: G(i, j)))
@spec("vf_apply")
def _(S):
    b, n, k = S.dims("b", "n", "k"); A = S.A("A", b, n); W = S.A("W", n, k); G = S.A("G", b, k); S.val("r0", b); S.val("r1", k)
    S.out("R", [b, k], lin(S, A, W, S.A("C", k), n)); grads(S, b, n, k, A); S.out("GA", [b, n], lambda i, t: S.sum(k, lambda j: G(i, j) * W(t, j)))
@spec("vf_apply_twice_run")
def _(S):
    b, n, k = S.dims("b", "n", "k"); A = S.A("A", b, n); S.out("R", [b, k], lin(S, A, S.A("W", n, k), S.A("C", k), n)); grads(S, b, n, k, A)
@spec("vf_apply_expression")
def _(S):
    b, n, k = S.dims("b", "n", "k"); A = S.A("A", b, n); W = S.A("W", n, k); G = S.A("G", b, k); Q = lambda i, t: A(i, t) * A(i, t)
    S.out("R", [b, k], lin(S, Q, W, S.A("C", k), n)); grads(S, b, n, k, Q); S.out("GA", [b, n], lambda i, t: 2 * A(i, t) * S.sum(k, lambda j: G(i, j) * W(t, j)))
@spec("vf_apply_chain")
def _(S):
    b, n, k, jj = S.dims("b", "n", "k", "j"); A = S.A("A", b, jj); W = S.A("W", n, k); V = S.A("W2", jj, n); G = S.A("G", b, k); C = S.A("C", k)
    H = lambda i, t: S.sum(jj, lambda u: A(i, u) * V(u, t))
    S.out("R", [b, k], lin(S, H, W, C, n)); grads(S, b, n, k, H)
    S.out("GW2", [jj, n], lambda u, t: S.sum(b, lambda i: A(i, u) * S.sum(k, lambda j: G(i, j) * W(t, j))))
@spec("vf_apply_original")
def _(S):
    b, n, k, p = S.dims("b", "n", "k", "p"); W = S.A("W", n, k); C = S.A("C", k); r = lin(S, S.A("A", b, n), W, C, n)
    S.out("R", [b, k], r); S.out("T", [b, k], r); S.out("U", [p, k], lin(S, S.A("B", p, n), W, C, n))
@spec("vf_apply_shares_weights")
def _(S):
    b, n, k = S.dims("b", "n", "k"); S.out("R", [b, k], lin(S, S.A("A", b, n), S.A("V", n, k), S.A("C", k), n))
@spec("vf_apply_leaves")
def _(S):
    b, n = S.dims("b", "n"); A = S.A("A", b, n); W = S.A("W", n); D = S.A("D", n); G = S.A("G", b, n)
    S.out("R", [b, n], lambda i, j: 2 * A(i, j) * W(j) + D(j) + A(i, j) * A(i, j) * A(i, j)); S.out("D", [n], D)
    S.out("GA", [b, n], lambda i, j: G(i, j) * (2 * W(j) + 3 * A(i, j) * A(i, j))); S.out("GW", [n], lambda j: S.sum(b, lambda i: 2 * A(i, j) * G(i, j)))
@spec("vf_apply_itself")
def _(S): S.dims("b", "n")
@spec("vf_apply_twice")
def _(S):
    b, n = S.dims("b", "n"); A = S.A("A", b, n); D = S.A("D", b, n); W = S.A("W", n); G = S.A("G", b, n); E = lambda x: S.fn("exp", x)
    S.out("R", [b, n], lambda i, j: E(A(i, j) * W(j)) - E(D(i, j) * W(j)))
    S.out("GA", [b, n], lambda i, j: G(i, j) * W(j) * E(A(i, j) * W(j))); S.out("GD", [b, n], lambda i, j: -G(i, j) * W(j) * E(D(i, j) * W(j)))
    S.out("GW", [n], lambda j: S.sum(b, lambda i: G(i, j) * (A(i, j) * E(A(i, j) * W(j)) - D(i, j) * E(D(i, j) * W(j)))))
@spec("vf_trainable")
def _(S): S.dims("b", "n")
@spec("vf_trainable_leaf")
def _(S): S.dims("b", "n")
@spec("vf_trainable_gradient")
def _(S):
    b, n, k = S.dims("b", "n", "k"); A = S.A("A", b, n); W = S.A("W", n, k); G = S.A("G", b, k); grads(S, b, n, k, A, frozen=True)
    S.out("GA", [b, n], lambda i, t: S.sum(k, lambda j: G(i, j) * W(t, j)))
# training with the linear loss: every batch moves w by -lr * sum over the batch of input times truth; the error is that of the weights before the step
def loss(S, W, A, T, b, n, o=0): return S.sum(b, lambda i: S.sum(n, lambda j: T(o + i, j) * A(o + i, j) * W(j)))
def grad(S, A, T, b, o=0): return lambda j: S.sum(b, lambda i: A(o + i, j) * T(o + i, j))
def step(S, W, g): lr = S.x("lr"); return lambda j: W(j) - lr * g(j)
@spec("vf_train")
def _(S):
    b, n = S.dims("b", "n"); A = S.A("A", b, n); T = S.A("T", b, n); W = S.A("W", n); S.val("e", loss(S, W, A, T, b, n)); S.out("W1", [n], step(S, W, grad(S, A, T, b)))
    S.out("GW", [n], lambda j: S.q(0)); S.out("X", [b, n], A); S.out("Y", [b, n], T)
@spec("vf_train_twice")
def _(S):
    b, n, p = S.dims("b", "n", "p"); A = S.A("A", b, n); T = S.A("T", b, n); B = S.A("B", p, n); U = S.A("U", p, n); W = S.A("W", n)
    S.val("e", loss(S, W, A, T, b, n)); W1 = step(S, W, grad(S, A, T, b)); S.val("f", loss(S, W1, B, U, p, n)); S.out("W1", [n], step(S, W1, grad(S, B, U, p)))
@spec("vf_train_mse")
def _(S):
    b, n, bs = S.dims("b", "n", "bs"); A = S.A("A", b, n); T = S.flat("T"); W = S.flat("W"); C = S.flat("C"); lr = S.x("lr")
    d = lambda i: S.sum(n, lambda t: A(i, t) * W(t)) + C(0) - T(i)
    S.val("e", S.sum(b, lambda i: d(i) * d(i)) / b); S.out("W1", [n, 1], lambda t, z: W(t) - lr * S.sum(b, lambda i: 2 * d(i) * A(i, t)) / b / bs)
    S.out("C1", [1], lambda z: C(0) - lr * S.sum(b, lambda i: 2 * d(i)) / b / bs)
@spec("vf_train_frozen")
def _(S):
    b, n = S.dims("b", "n"); W = S.A("W", n); V = S.A("V", n); W1 = step(S, W, grad(S, S.A("A", b, n), S.A("T", b, n), b))
    S.out("W1", [n], W1); S.out("W2", [n], W1); S.out("V1", [n], V); S.out("V2", [n], V)
@spec("vf_train_dropout")
def _(S):
    n = S.d("n"); A = S.flat("A"); T = S.flat("T"); B = S.flat("B"); V = S.A("V", n); W = S.A("W", n); lr = S.x("lr"); W1 = S.got("W1", n)
    S.out("R", [1, n], lambda z, j: B(j) * V(j))
    S.every("moved_by_dropped_gradient", [n], lambda j: (W1(j) - W(j)) * (W1(j) - W(j) + lr * 2 * A(j) * T(j)), lambda j: 0)
@spec("vf_train_predict")
def _(S):
    b, n = S.dims("b", "n"); W1 = step(S, S.A("W", n), grad(S, S.A("A", b, n), S.A("T", b, n), b)); r = had(S.A("B", b, n), W1); S.out("R", [b, n], r); S.out("Q", [b, n], r); S.out("U", [b, n], had(S.A("D", b, n), W1))
@spec("vf_train_two_models")
def _(S):
    b, n = S.dims("b", "n"); lr = S.x("lr"); V = S.A("V", n); S.out("V0", [n], V); S.out("W1", [n], step(S, S.A("W", n), grad(S, S.A("A", b, n), S.A("T", b, n), b)))
    g = grad(S, S.A("B", b, n), S.A("U", b, n), b); S.out("V1", [n], lambda j: V(j) - lr * g(j) / 2)
# evaluation: the mean of the losses of the whole batches
def evaluation(S, l, rows, b, a="A", t="T", W=None):
    n = S.d("n"); A = S.A(a, rows, n); T = S.A(t, rows, n); W = W or S.A("W", n)
    return sum((loss(S, W, A, T, b, n, b * i) for i in range(l)), S.q(0)) / l
@spec("vf_eval_1")
def _(S):
    b, n = S.dims("b", "n"); S.val("e", evaluation(S, 1, b, b)); S.out("X", [b, n], S.A("A", b, n)); S.out("Y", [b, n], S.A("T", b, n)); S.out("W1", [n], S.A("W", n)); S.out("GW", [n], lambda j: S.q(0))
@spec("vf_eval_3")
def _(S): b = S.d("b"); S.val("e", evaluation(S, 3, 3 * b, b))
@spec("vf_eval_rest")
def _(S): b = S.d("b"); S.val("e", evaluation(S, 2, 3 * b - 1, b))
@spec("vf_eval_default")
def _(S): n, k = S.dims("n", "k"); S.val("e", evaluation(S, 1, 32 + k, 32))
@spec("vf_eval_many")
def _(S):
    b, n, l = S.dims("b", "n", "l"); A = S.A("A", l * b, n); T = S.A("T", l * b, n); W = S.A("W", n)
    S.val("e", S.sum(l, lambda q: loss(S, W, A, T, b, n, q * b)) / l)
@spec("vf_eval_mse")
def _(S):
    b, n = S.dims("b", "n"); A = S.A("A", 2 * b, n); T = S.flat("T"); W = S.flat("W"); d = lambda i: S.sum(n, lambda t: A(i, t) * W(t)) - T(i)
    S.val("e", (S.sum(b, lambda i: d(i) * d(i)) / b + S.sum(b, lambda i: d(b + i) * d(b + i)) / b) / 2)
@spec("vf_eval_dropout")
def _(S): b = S.d("b"); S.val("e", evaluation(S, 2, 2 * b, b))
@spec("vf_eval_then_train")
def _(S): b, n = S.dims("b", "n"); S.out("W1", [n], step(S, S.A("W", n), grad(S, S.A("A", b, n), S.A("T", b, n), b)))
# fit: the first loops train, the remaining loops validate
def epoch(S, W, rows, b, train, valid, a="A", t="T"):
    n = S.d("n"); A = S.A(a, rows, n); T = S.A(t, rows, n); e = v = S.q(0)
    for i in range(train): e = e + loss(S, W, A, T, b, n, b * i); W = step(S, W, grad(S, A, T, b, b * i))
    for i in range(train, train + valid): v = v + loss(S, W, A, T, b, n, b * i)
    return W, e / train, (v / valid if valid else None)
@spec("vf_fit")
def _(S):
    b, n = S.dims("b", "n"); W, e, _ = epoch(S, S.A("W", n), 2 * b, b, 2, 0); S.val("e", e); S.out("W1", [n], W); S.out("X", [2 * b, n], S.A("A", 2 * b, n)); S.out("Y", [2 * b, n], S.A("T", 2 * b, n))
@spec("vf_fit_rest")
def _(S): b, n = S.dims("b", "n"); W, e, _ = epoch(S, S.A("W", n), 3 * b - 1, b, 2, 0); S.val("e", e); S.out("W1", [n], W)
@spec("vf_fit_split")
def _(S): b, n = S.dims("b", "n"); W, e, v = epoch(S, S.A("W", n), 4 * b, b, 2, 2); S.val("e", e); S.val("v", v); S.out("W1", [n], W)
@spec("vf_fit_split_quarter")
def _(S): b, n = S.dims("b", "n"); W, e, v = epoch(S, S.A("W", n), 4 * b, b, 3, 1); S.val("e", e); S.val("v", v); S.out("W1", [n], W)
@spec("vf_fit_epochs")
def _(S):
    b, n = S.dims("b", "n"); W = S.A("W", n)
    for q in "01": W, e, v = epoch(S, W, 2 * b, b, 1, 1); S.val("e" + q, e); S.val("v" + q, v)
    S.out("W1", [n], W); S.out("R", [b, n], had(S.A("B", b, n), W))
@spec("vf_fit_twice")
def _(S):
    b, n, p = S.dims("b", "n", "p"); W, _, _ = epoch(S, S.A("W", n), b, b, 1, 0); W, e, _ = epoch(S, W, 2 * p, p, 2, 0, "B", "U"); S.val("e", e); S.out("W1", [n], W)
@spec("vf_fit_many")
def _(S):
    b, n, l = S.dims("b", "n", "l"); A = S.A("A", l * b, n); T = S.A("T", l * b, n); W = S.A("W", n); lr = S.x("lr")
    S.out("W1", [n], lambda j: W(j) - lr * S.sum(l, lambda q: S.sum(b, lambda i: A(q * b + i, j) * T(q * b + i, j))))
