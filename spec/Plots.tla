------------------------------- MODULE Plots -------------------------------
(* What a plot shows.  A curve or surface is the model's own numbers at a    *)
(* grid of latent points, drawn against the scale those points are reported  *)
(* on.  The model here has linear category logits: item j has weights        *)
(* W[j][k][v] and intercepts D[j][k]; key[j] is the correct option when the  *)
(* test is multiple choice (key = <<>> otherwise).  Latent points are mapped *)
(* by x = theta A + b and then cut off from below at floor (<<>> = no floor).*)
EXTENDS Models, Information

Dist(m, j, theta) == Softmax([k \in 1..Len(m.D[j]) |-> RAdd(RDot(m.W[j][k], theta), m.D[j][k])])
Points(m, j) == IF m.key = <<>> THEN [k \in 1..Len(m.D[j]) |-> k - 1] ELSE [k \in 1..Len(m.D[j]) |-> IF k = m.key[j] + 1 THEN 1 ELSE 0]
\* derivative of the probability of category k with respect to each latent variable
Grad(m, j, p) ==
  LET mean == [v \in 1..m.lv |-> RSum([k \in 1..Len(p) |-> RMul(p[k], m.W[j][k][v])])]
  IN RForce([k \in 1..Len(p) |-> [v \in 1..m.lv |-> RMul(p[k], RSub(m.W[j][k][v], mean[v]))]])

\* ---- scales
Cut(x, floor) == IF floor = <<>> THEN x ELSE [v \in 1..Len(x) |-> RMax2(x[v], floor[v])]
Apply(s, theta) == RForce(Cut([v \in 1..Len(theta) |-> RAdd(s.b[v], RSum([u \in 1..Len(theta) |-> RMul(theta[u], s.A[u][v])]))], s.floor))
Ident(n) == [u \in 1..n |-> [v \in 1..n |-> IF u = v THEN 1 ELSE 0]]
MatMul(p, q) == RForce([u \in 1..Len(p) |-> [v \in 1..Len(q[1]) |-> RSum([w \in 1..Len(q) |-> RMul(p[u][w], q[w][v])])]])
Then(s, t) == [A |-> MatMul(s.A, t.A), b |-> RForce([v \in 1..Len(t.b) |-> RAdd(t.b[v], RSum([u \in 1..Len(s.b) |-> RMul(s.b[u], t.A[u][v])]))]), floor |-> t.floor, inv |-> s.inv /\ t.inv]
NoScale(n) == [A |-> Ident(n), b |-> [v \in 1..n |-> 0], floor |-> <<>>, inv |-> TRUE]
Stack(ss, n) == FoldLeft(LAMBDA a, t : Then(a, t), NoScale(n), ss)
Minor(m, r, c) == [i \in 1..(Len(m) - 1) |-> [j \in 1..(Len(m) - 1) |-> m[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1]]]
RECURSIVE Det(_)
Det(m) == IF Len(m) = 0 THEN 1 ELSE RSum([j \in 1..Len(m) |-> LET t == RMul(m[1][j], Det(Minor(m, 1, j))) IN IF j % 2 = 1 THEN t ELSE RNeg(t)])
MatInv(m) == LET d == Det(m) IN RForce([i \in 1..Len(m) |-> [j \in 1..Len(m) |->
                 LET t == RDiv(Det(Minor(m, j, i)), d) IN IF (i + j) % 2 = 0 THEN t ELSE RNeg(t)]])
Undo(s, x) == LET n == MatInv(s.A) IN RForce([u \in 1..Len(x) |-> RSum([v \in 1..Len(x) |-> RMul(RSub(x[v], s.b[v]), n[v][u])])])

\* ---- where the model is evaluated
\* opt: vars (plotted variables), ranges (one per plotted variable or <<>>), steps, fixed (<<>> or the values of the other variables in order),
\* rescale (draw on the transformed scale).  train: training scores or <<>>.
Column(rows, v) == RSort([r \in 1..Len(rows) |-> rows[r][v]])
Median(rows, v) == LET c == Column(rows, v) IN c[(Len(c) + 1) \div 2]
\* the grid is laid out on the reported scale when that can be undone and there are training scores to take its limits from
OnReported(opt, ss, train) == opt.rescale /\ ss # <<>> /\ Stack(ss, Len(opt.all)).inv /\ train # <<>>
Reference(opt, ss, train) == IF OnReported(opt, ss, train) THEN LET s == Stack(ss, Len(opt.all)) IN RForce([r \in 1..Len(train) |-> Apply(s, train[r])]) ELSE train
SpanOf(opt, k, ref) == IF opt.ranges[k] # <<>> THEN opt.ranges[k]
                      ELSE IF ref = <<>> THEN <<-3, 3>>
                      ELSE LET c == Column(ref, opt.vars[k]) IN <<c[1], c[Len(c)]>>
Line(range, steps) == RForce([i \in 1..steps |-> RAdd(range[1], RMul(RDiv(i - 1, steps - 1), RSub(range[2], range[1])))])
Position(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Others(opt) == SelectSeq(opt.all, LAMBDA v : v \notin {opt.vars[k] : k \in DOMAIN opt.vars})
FixedAt(opt, v, ref) == IF opt.fixed # <<>> THEN opt.fixed[Position(Others(opt), v)] ELSE IF ref = <<>> THEN 0 ELSE Median(ref, v)
\* grid points in drawing order (the first plotted variable outermost), as layout coordinates and as latent points
Layout(opt, ref) ==
  LET lines == RForce([k \in DOMAIN opt.vars |-> Line(SpanOf(opt, k, ref), opt.steps)])
      n == IF Len(opt.vars) = 1 THEN opt.steps ELSE opt.steps * opt.steps
      At(i, k) == IF Len(opt.vars) = 1 THEN lines[1][i] ELSE IF k = 1 THEN lines[1][((i - 1) \div opt.steps) + 1] ELSE lines[2][((i - 1) % opt.steps) + 1]
  IN RForce([i \in 1..n |-> [v \in 1..Len(opt.all) |-> IF \E k \in DOMAIN opt.vars : opt.vars[k] = v THEN At(i, Position(opt.vars, v)) ELSE FixedAt(opt, v, ref)]])
LatentGrid(opt, ss, train) ==
  LET ref == Reference(opt, ss, train)
      lay == Layout(opt, ref)
  IN IF OnReported(opt, ss, train) THEN LET s == Stack(ss, Len(opt.all)) IN RForce([i \in 1..Len(lay) |-> Undo(s, lay[i])]) ELSE lay
Reported(opt, ss, grid) == IF opt.rescale /\ ss # <<>> THEN LET s == Stack(ss, Len(opt.all)) IN RForce([i \in 1..Len(grid) |-> Apply(s, grid[i])]) ELSE grid

\* ---- what is drawn against the grid
\* one number per grid point; dx: derivative of the latent point with respect to the reported one (dx[v][u] = d theta_u / d x_v)
Dx(opt, ss) == IF opt.rescale /\ ss # <<>> THEN MatInv(Stack(ss, Len(opt.all)).A) ELSE Ident(Len(opt.all))
EntropyOf(p) == RSum([k \in 1..Len(p) |-> IF REq(p[k], 0) THEN 0 ELSE RNeg(RDiv(RMul(p[k], RLn(p[k])), RLn(2)))])
SumOver(items, f(_)) == RSum([i \in DOMAIN items |-> f(items[i])])
ExpectedOf(m, items, theta) == SumOver(items, LAMBDA j : RDot(Dist(m, j, theta), Points(m, j)))
LogLikOf(m, items, x, theta) == SumOver(items, LAMBDA j : IF x[j] = -1 THEN 0 ELSE RLn(Dist(m, j, theta)[x[j] + 1]))
InfoOf(m, items, theta, dx, cos) ==
  SumOver(items, LAMBDA j : LET p == Dist(m, j, theta)
                                g == Grad(m, j, p)
                                h == RForce([k \in 1..Len(p) |-> [v \in 1..m.lv |-> RSum([u \in 1..m.lv |-> RMul(dx[v][u], g[k][u])])]])
                                i == RForce(ItemInfo(p, h))
                            IN IF cos = <<>> THEN i[1][1] ELSE InDirection(i, cos))
SlopeOf(m, j, k, theta, dx, v) == RSum([u \in 1..m.lv |-> RMul(dx[v][u], Grad(m, j, Dist(m, j, theta))[k][u])])
\* the series of a plot at latent point theta: one number per curve
Series(m, e, opt, ss, theta) ==
  CASE e.what = "entropy" -> <<EntropyOf(Dist(m, e.item, theta))>>
    [] e.what = "log_likelihood" -> <<LogLikOf(m, e.items, e.data, theta)>>
    [] e.what = "expected_sum_score" -> <<ExpectedOf(m, e.items, theta)>>
    [] e.what = "information" -> <<InfoOf(m, e.items, theta, Dx(opt, ss), e.cos)>>
    [] e.what = "probabilities" -> Dist(m, e.item, theta)
    [] e.what = "derivative" -> [k \in 1..Len(m.D[e.item]) |-> SlopeOf(m, e.item, k, theta, Dx(opt, ss), opt.vars[1])]
\* Along one variable a curve starts (or, on a reversed scale, ends) at the smallest reported score; where several grid points share it, only the innermost is drawn.
NonDecreasing(x) == \A i \in 2..Len(x) : RLe(x[i - 1], x[i])
NonIncreasing(x) == \A i \in 2..Len(x) : RLe(x[i], x[i - 1])
Drawn(x) ==        \* <<>>: not determined (a constant or winding reported score)
  IF NonDecreasing(x) /\ NonIncreasing(x) THEN <<>>
  ELSE IF NonDecreasing(x) THEN LET first == CHOOSE i \in 1..Len(x) : REq(x[i], x[1]) /\ (i = Len(x) \/ RLt(x[i], x[i + 1])) IN [i \in 1..(Len(x) - first + 1) |-> i + first - 1]
  ELSE IF NonIncreasing(x) THEN LET last == CHOOSE i \in 1..Len(x) : REq(x[i], x[Len(x)]) /\ (i = 1 \/ RLt(x[i], x[i - 1])) IN [i \in 1..last |-> i]
  ELSE <<>>

\* ---- distributions of scores
Bins(n) == CHOOSE k \in 1..64 : 2 ^ (k - 1) <= n /\ n < 2 ^ k          \* Sturges: floor(log2 n) + 1
Edges(col, k) == Line(<<col[1], col[Len(col)]>>, k + 1)
BinOf(e, x) == CHOOSE i \in 1..(Len(e) - 1) : RLe(e[i], x) /\ (RLt(x, e[i + 1]) \/ i = Len(e) - 1)
Density2(rows, k) ==     \* [j][i]: density in column i (first variable) and row j (second variable)
  LET ex == Edges(Column(rows, 1), k)
      ey == Edges(Column(rows, 2), k)
      cell == RForce([r \in 1..Len(rows) |-> <<BinOf(ex, rows[r][1]), BinOf(ey, rows[r][2])>>])
      area == RMul(RSub(ex[2], ex[1]), RSub(ey[2], ey[1]))
  IN [j \in 1..k |-> [i \in 1..k |-> RDiv(Cardinality({r \in 1..Len(rows) : RToInt(cell[r][1]) = i /\ RToInt(cell[r][2]) = j}), RMul(Len(rows), area))]]
Centers(e) == [i \in 1..(Len(e) - 1) |-> RDiv(RAdd(e[i], e[i + 1]), 2)]
=============================================================================
