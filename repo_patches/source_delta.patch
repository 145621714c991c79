From 307a98678cbcdb70abc48200dc20190c230907e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:24 +0000
Subject: [PATCH 01/29] fix: keep the rational scale through reversion, dual
 and chained exterior products

---
 public/gal/expr.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index e655f06..86ba8c8 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -831,6 +831,7 @@ constexpr auto operator~(detail::rpne<A, S> const& in)
     }
 
     out.append(in);
+    out.q = in.q;
 
     if (in.back().o == detail::op_rev)
     {
@@ -854,6 +855,7 @@ constexpr auto operator!(detail::rpne<A, S> const& in)
 
     out.append(in);
     out.append(detail::op_pd);
+    out.q = in.q;
     return out;
 }
 
@@ -1029,8 +1031,8 @@ constexpr auto operator^(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> con
         out.append(lhs);
         out.nodes[out.count++] = detail::node{detail::op_se, rhs_checksum, rhs.count, zero};
         out.append(rhs);
-        out.q = lhs.q * rhs.q;
     }
+    out.q = lhs.q * rhs.q;
 
     // Loop through all ep factors to compute the bloom filter
     width_t i       = 1;
-- 
2.43.0


From a1e35cc99ecd194f01da0fb10275943ace0654cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:24 +0000
Subject: [PATCH 02/29] fix: scale and zero handling when merging sums

---
 public/gal/expr.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 86ba8c8..59f20df 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -386,15 +386,19 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
     rpne<A, S1 + S2 + 3> out;
 
     // Early out if either the lhs or the rhs is exactly zero
-    if (lhs.count == 0 || rhs.count == 0)
+    bool lhs_zero = lhs.count == 0 || lhs.q.is_zero();
+    bool rhs_zero = rhs.count == 0 || rhs.q.is_zero();
+    if (lhs_zero || rhs_zero)
     {
-        if (lhs.count == 0)
+        if (!rhs_zero)
         {
             out.append(rhs);
+            out.q = rhs.q;
         }
-        else
+        else if (!lhs_zero)
         {
             out.append(lhs);
+            out.q = lhs.q;
         }
         return out;
     }
@@ -443,7 +447,7 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
                 {
                     auto lhs_summand = lhs.nodes[lhs_index++];
                     ++summand_count;
-                    lhs_summand.q *= rhs.q;
+                    lhs_summand.q *= lhs.q;
                     out.nodes[out.count++] = lhs_summand;
                     for (width_t i = 0; i != lhs_summand.ex; ++i)
                     {
@@ -668,8 +672,12 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
         summand_count = 2;
     }
 
-    // Do a final pass to see if the sum has been collapsed to a single term
-    if (summand_count == 1)
+    // Do a final pass to see if the sum has been collapsed to nothing or to a single term
+    if (summand_count == 0)
+    {
+        return out;
+    }
+    else if (summand_count == 1)
     {
         // Copy-erase the initial subexpression op
         out.q = out.nodes[0].q;
-- 
2.43.0


From 2def59c11f3951cefcff1c40c5cfac33acdd2fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:24 +0000
Subject: [PATCH 03/29] fix: a product with an exactly zero operand is zero

---
 public/gal/expr.hpp | 32 ++++----------------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 59f20df..f0c4495 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -943,14 +943,8 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator*(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
-    if (lhs.count == 0)
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
-    {
-        out.append(lhs);
         return out;
     }
 
@@ -1070,14 +1064,8 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator>>(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
-    if (lhs.count == 0)
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
-    {
-        out.append(lhs);
         return out;
     }
 
@@ -1100,14 +1088,8 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator|(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
-    if (lhs.count == 0)
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
-    {
-        out.append(lhs);
         return out;
     }
 
@@ -1144,14 +1126,8 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto scalar_product(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 2> out;
-    if (lhs.count == 0)
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
-    {
-        out.append(lhs);
         return out;
     }
 
-- 
2.43.0


From 5514c535b5a1630914427272e027f5556034432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:24 +0000
Subject: [PATCH 04/29] fix: compare the rational factor of expression nodes

---
 public/gal/expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index f0c4495..a158add 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -114,7 +114,8 @@ namespace detail
 
         constexpr bool operator==(node const& other) const
         {
-            return o == other.o && checksum == other.checksum && ex == other.ex;
+            return o == other.o && checksum == other.checksum && ex == other.ex
+                   && q.num == other.q.num && q.den == other.q.den;
         }
 
         constexpr bool operator!=(node const& other) const
-- 
2.43.0


From af36c647c8002c1458fa7a8d4301b8adc0ccc1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:24 +0000
Subject: [PATCH 05/29] fix: the constant E evaluates to e, not pi

---
 public/gal/expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index a158add..02cfb43 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -369,7 +369,8 @@ namespace detail
         template <typename A>
         constexpr rpne<A, 1> convert() const noexcept
         {
-            return {{node{c_pi, c_pi}}, 1, q};
+            uint32_t op = c_const_start + static_cast<uint32_t>(id - ind_constant_start);
+            return {{node{op, op}}, 1, q};
         }
     };
 } // namespace detail
-- 
2.43.0


From 9816fabc78fae7aa027792d07b141a4b524ee04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:24 +0000
Subject: [PATCH 06/29] fix: keep the numerator when dividing an integer by an
 expression

---
 public/gal/expr.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 02cfb43..c7517d7 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -774,13 +774,7 @@ constexpr auto operator/(detail::rpne<A, S> lhs, int d)
 template <typename A, width_t S>
 constexpr auto operator/(int lhs, detail::rpne<A, S> const& rhs)
 {
-    detail::rpne<A, S + 2> out;
-    out.append(detail::rpne_from_constant<A>(lhs, 1));
-    out.append(rhs);
-    out.append(detail::op_div);
-    out.back().q = rhs.q.reciprocal();
-    out.q        = one;
-    return out;
+    return detail::rpne_from_constant<A>(lhs, 1) / rhs;
 }
 
 template <typename A, width_t S1, width_t S2>
-- 
2.43.0


From 7bf08c62f17c508467cec3d44ed134910ff95c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:58 +0000
Subject: [PATCH 07/29] fix: accept a plain floating-point input in any
 position

---
 public/gal/engine.hpp | 15 ++++++++++++++-
 public/gal/expr.hpp   |  2 +-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/public/gal/engine.hpp b/public/gal/engine.hpp
index 1d4b46e..935d090 100644
--- a/public/gal/engine.hpp
+++ b/public/gal/engine.hpp
@@ -342,10 +342,23 @@ namespace detail
     struct infer_field
     {};
 
+    template <typename D>
+    constexpr auto field_of() noexcept
+    {
+        if constexpr (std::is_floating_point_v<D>)
+        {
+            return D{};
+        }
+        else
+        {
+            return typename D::value_t{};
+        }
+    }
+
     template <typename D, typename... Ds>
     struct infer_field<D, Ds...>
     {
-        using value_t = typename D::value_t;
+        using value_t = decltype(field_of<D>());
     };
 
     template <>
diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index c7517d7..ecd511c 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -283,7 +283,7 @@ namespace detail
 
         if constexpr (sizeof...(Ds) > 0)
         {
-            if (std::is_floating_point_v<D>)
+            if constexpr (std::is_floating_point_v<D>)
             {
                 return rpne_entities<A, S, Ds...>(out, current_id + 1, i + 1);
             }
-- 
2.43.0


From 620fecde50fc6d0d84d96750168c3cb0794d8b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:08 +0000
Subject: [PATCH 08/29] fix: dividing by a scalar cancels common factors and
 accepts any single monomial

---
 public/gal/algebra.hpp | 122 ++++++++++-------------------------------
 public/gal/dfa.hpp     |   4 +-
 2 files changed, 33 insertions(+), 93 deletions(-)

diff --git a/public/gal/algebra.hpp b/public/gal/algebra.hpp
index 9ef4bf6..70f154c 100644
--- a/public/gal/algebra.hpp
+++ b/public/gal/algebra.hpp
@@ -978,98 +978,6 @@ namespace detail
         return in;
     }
 
-    // Specialized op for dividing a multivector by a scalar (in multivector form).
-    template <typename A, width_t I, width_t M, width_t T, width_t I2, width_t M2, width_t T2>
-    constexpr auto divide(mv<A, I, M, T> const& lhs, mv<A, I2, M2, T2> const& rhs, rat q) noexcept
-    {
-        static_assert(M2 != 0 && T2 != 0, "Divide by zero detected!");
-        mon m = rhs.mons[0];
-        if constexpr (I2 == 0)
-        {
-            // Divide each monomial of the LHS by the RHS monomial scaling constant
-            auto out = lhs;
-            for (auto it = out.begin(); it != out.end(); ++it)
-            {
-                for (auto mon_it = it.begin(); mon_it != it.end(); ++mon_it)
-                {
-                    mon_it->q = q * mon_it->q / m.q;
-                }
-            }
-            return out;
-        }
-        else if constexpr (I2 == 1)
-        {
-            ind d    = rhs.inds[0];
-            d.degree = d.degree.negation();
-            mv<A, I + M, M, T> out;
-            auto out_terms_it = out.terms.begin();
-            auto out_mons_it  = out.mons.begin();
-            auto out_inds_it  = out.inds.begin();
-
-            // Multiply each monomial of the lhs by the reciprocal of the rhs.
-            for (auto it = lhs.cbegin(); it != lhs.cend(); ++it)
-            {
-                for (auto mon_it = it.cbegin(); mon_it != it.cend(); ++mon_it)
-                {
-                    width_t ind_offset = out_inds_it - out.inds.begin();
-                    bool canceled      = false;
-                    bool written       = false;
-                    for (auto ind_it = mon_it.cbegin(); ind_it != mon_it.cend(); ++ind_it)
-                    {
-                        if (!written)
-                        {
-                            if (d.id == ind_it->id)
-                            {
-                                rat deg = d.degree + ind_it->degree;
-                                if (!deg.is_zero())
-                                {
-                                    canceled = true;
-                                }
-                                else
-                                {
-                                    *out_inds_it++ = ind{d.id, deg};
-                                }
-                                written = true;
-                            }
-                            else if (d.id < ind_it->id)
-                            {
-                                *out_inds_it++ = d;
-                                *out_inds_it++ = *ind_it;
-                                written        = true;
-                            }
-                            else
-                            {
-                                *out_inds_it++ = *ind_it;
-                            }
-                        }
-                        else
-                        {
-                            *out_inds_it++ = *ind_it;
-                        }
-                    }
-
-                    if (!written)
-                    {
-                        *out_inds_it++ = d;
-                    }
-
-                    rat deg        = mon_it->degree - d.degree;
-                    width_t count  = canceled ? mon_it->count - 1 : mon_it->count + 1;
-                    *out_mons_it++ = mon{mon_it->q / m.q, deg, count, ind_offset};
-                }
-
-                *out_terms_it++ = *it;
-            }
-
-            out.size.term = out_terms_it - out.terms.begin();
-            out.size.mon  = out_mons_it - out.mons.begin();
-            out.size.ind  = out_inds_it - out.inds.begin();
-
-            out.scale(q);
-            return out;
-        }
-    }
-
     template <typename T>
     [[nodiscard]] constexpr auto reverse(T in) noexcept
     {
@@ -1398,6 +1306,36 @@ namespace detail
         return out;
     }
 
+    // The product of any basis element with a scalar
+    struct scalar_multiple
+    {
+        [[nodiscard]] constexpr static std::pair<elem_t, int> product(elem_t lhs, elem_t) noexcept
+        {
+            return {lhs, 1};
+        }
+    };
+
+    // Specialized op for dividing a multivector by a scalar (in multivector form). The scalar must
+    // consist of a single monomial, so that its reciprocal is a single monomial as well.
+    template <typename A, width_t I, width_t M, width_t T, width_t I2, width_t M2, width_t T2>
+    constexpr auto divide(mv<A, I, M, T> const& lhs, mv<A, I2, M2, T2> const& rhs, rat q) noexcept
+    {
+        static_assert(M2 != 0 && T2 != 0, "Divide by zero detected!");
+
+        // Multiply each monomial of the lhs by the reciprocal of the rhs.
+        auto const& m = rhs.mons[0];
+        mv<A, I2, 1, 1> reciprocal{};
+        reciprocal.size     = mv_size{m.count, 1, 1};
+        reciprocal.mons[0]  = mon{q / m.q, m.degree.negation(), m.count, 0};
+        reciprocal.terms[0] = term{1, 0, 0};
+        for (width_t i = 0; i != m.count; ++i)
+        {
+            reciprocal.inds[i]        = rhs.inds[m.ind_offset + i];
+            reciprocal.inds[i].degree = reciprocal.inds[i].degree.negation();
+        }
+        return product(scalar_multiple{}, lhs, reciprocal);
+    }
+
     template <typename A, width_t I, width_t M, width_t T>
     constexpr mv<A, I, M, 1> component(mv<A, I, M, T> const& in, elem_t e) noexcept
     {
diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index d5abb9e..1323e7e 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -759,7 +759,9 @@ namespace detail
                     split.first.template get<1>().second, split.first.template get<0>().second, n.q);
                 return rpn_state{State.inputs,
                                  State.temps,
-                                 split.second.push(make_pair(n.checksum, div)),
+                                 split.second.push(make_pair(
+                                     n.checksum,
+                                     div.template resize<div.size.ind, div.size.mon, div.size.term>())),
                                  State.id_count};
             }
             else if constexpr (n.o == op_sqrt)
-- 
2.43.0


From 6b14110dadbb4f727b4cc4a258e5c24dccef7859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:05 +0000
Subject: [PATCH 09/29] fix: the inner product keeps the order of its operands

---
 public/gal/expr.hpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index ecd511c..fc412be 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -1096,19 +1096,12 @@ constexpr auto operator|(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> con
     }
 
     out.q = q;
-    if (lhs.back().checksum < rhs.back().checksum)
-    {
-        out.append(lhs);
-        out.append(rhs);
-    }
-    else
-    {
-        out.append(rhs);
-        out.append(lhs);
-    }
+    // NOTE: operands of different grades do not commute in general
+    out.append(lhs);
+    out.append(rhs);
     out.append(detail::op_sip);
     out.nodes[out.count - 1].checksum
-        = detail::crc32(lhs.back().checksum + rhs.back().checksum + (detail::op_sip << 8));
+        = detail::crc32(lhs.back().checksum + ~rhs.back().checksum + (detail::op_sip << 8));
     return out;
 }
 
-- 
2.43.0


From 835313b3ff1b9683eb583df5246c6e97cd8e181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:19 +0000
Subject: [PATCH 10/29] fix: operations on an exactly zero expression

---
 public/gal/dfa.hpp    | 22 ++++++++++++++++++----
 public/gal/engine.hpp |  2 +-
 public/gal/expr.hpp   | 43 +++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 62 insertions(+), 5 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 1323e7e..2473764 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -780,10 +780,24 @@ namespace detail
             }
             else if constexpr (n.o == op_cos)
             {
-                auto args                    = State.args;
-                args.template get<0>().first = n.checksum;
-                args.template get<0>().second.cos(n.q);
-                return rpn_state{State.inputs, State.temps, args, State.id_count};
+                constexpr auto pop = State.args.pop();
+                if constexpr (pop.first.second.size.term == 0)
+                {
+                    // cos(0) = 1
+                    mv<algebra_t, 0, 1, 1> c{
+                        mv_size{0, 1, 1}, {}, {mon{one, zero, 0, 0}}, {term{1, 0, 0}}};
+                    return rpn_state{State.inputs,
+                                     State.temps,
+                                     pop.second.push(make_pair(n.checksum, c)),
+                                     State.id_count};
+                }
+                else
+                {
+                    auto args                    = State.args;
+                    args.template get<0>().first = n.checksum;
+                    args.template get<0>().second.cos(n.q);
+                    return rpn_state{State.inputs, State.temps, args, State.id_count};
+                }
             }
             else if constexpr (n.o == op_tan)
             {
diff --git a/public/gal/engine.hpp b/public/gal/engine.hpp
index 935d090..6fb1ac9 100644
--- a/public/gal/engine.hpp
+++ b/public/gal/engine.hpp
@@ -193,7 +193,7 @@ namespace detail
                                                           std::integral_constant<den_t, Den>,
                                                           std::index_sequence<I...>) noexcept
     {
-        if constexpr (sizeof...(I) == 0)
+        if constexpr (sizeof...(I) == 0 || Num == 0)
         {
             return entity<A, F>{};
         }
diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index fc412be..7cae412 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -143,6 +143,10 @@ namespace detail
         constexpr auto operator[](elem_t e) noexcept
         {
             rpne<A, S + 1> out;
+            if (count == 0)
+            {
+                return out;
+            }
             out.append(*this);
             // Using operator[] successfully is not expected behavior, so we don't bother computing
             // the checksum in a fancy manner.
@@ -154,6 +158,10 @@ namespace detail
         constexpr auto select_grade(elem_t g) noexcept
         {
             rpne<A, S + 1> out;
+            if (count == 0)
+            {
+                return out;
+            }
             out.append(*this);
             out.nodes[out.count++] = node{op_grd, back().checksum + ~g, g};
             out.q                  = q;
@@ -228,6 +236,14 @@ namespace detail
         template <width_t S1>
         constexpr void append_as_se(rpne<A, S1> const& src) noexcept
         {
+            if (src.count == 0 || src.q.is_zero())
+            {
+                // An expression that is exactly zero still occupies a slot
+                nodes[count++] = node{op_se, 0, 1, one};
+                nodes[count++] = node{c_zero, c_zero};
+                return;
+            }
+
             nodes[count++] = node{op_se, 0, src.count, src.q};
             for (width_t i = 0; i != src.count; ++i)
             {
@@ -781,6 +797,11 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator/(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
+    if (lhs.count == 0 || lhs.q.is_zero())
+    {
+        return out;
+    }
+
     out.append(lhs);
     out.append(rhs);
     out.append(detail::op_div);
@@ -867,6 +888,11 @@ template <typename A, width_t S>
 constexpr auto sqrt(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0 || in.q.is_zero())
+    {
+        return out;
+    }
+
     out.append(in);
     out.append(detail::op_sqrt);
     out.back().q = in.q;
@@ -878,6 +904,11 @@ template <typename A, width_t S>
 constexpr auto sin(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0 || in.q.is_zero())
+    {
+        return out;
+    }
+
     out.append(in);
     out.append(detail::op_sin);
     out.back().q = in.q;
@@ -889,6 +920,13 @@ template <typename A, width_t S>
 constexpr auto cos(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0 || in.q.is_zero())
+    {
+        // cos(0) = 1
+        out.append(detail::rpne_from_constant<A>(1, 1));
+        return out;
+    }
+
     out.append(in);
     out.append(detail::op_cos);
     out.back().q = in.q;
@@ -900,6 +938,11 @@ template <typename A, width_t S>
 constexpr auto tan(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0 || in.q.is_zero())
+    {
+        return out;
+    }
+
     out.append(in);
     out.append(detail::op_tan);
     out.back().q = in.q;
-- 
2.43.0


From 5d42b1dc8eb0e41a28469012019b0be494cf4ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:44 +0000
Subject: [PATCH 11/29] fix: popping a stack returns its top element

---
 public/gal/expr.hpp  | 2 +-
 public/gal/stack.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 7cae412..10ce2e7 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -190,7 +190,7 @@ namespace detail
 
         constexpr node pop() noexcept
         {
-            return nodes[count--];
+            return nodes[--count];
         }
 
         constexpr void pop(width_t n) noexcept
diff --git a/public/gal/stack.hpp b/public/gal/stack.hpp
index 6403d1c..72da829 100644
--- a/public/gal/stack.hpp
+++ b/public/gal/stack.hpp
@@ -41,7 +41,7 @@ namespace detail
 
         constexpr T pop() noexcept
         {
-            return data[count--];
+            return data[--count];
         }
 
         constexpr T pop(size_t n) noexcept
-- 
2.43.0


From 5ca622d62444bd00626a398866d0005f999fb0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:27 +0000
Subject: [PATCH 12/29] fix: always extract the argument of a division or
 scalar function

---
 public/gal/dfa.hpp | 47 ++++++++++++++++------------------------------
 1 file changed, 16 insertions(+), 31 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 2473764..6ab90ea 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -232,6 +232,19 @@ namespace detail
         return 0;
     }
 
+    // Require the operand occupying the nodes [offset, end) to be evaluated as a temporary, so that
+    // each of its components consists of a single monomial.
+    template <typename A, width_t C>
+    constexpr void
+    require_se(rpne<A, C> const& exp, cses<C>& known, width_t offset, width_t end) noexcept
+    {
+        // Bare inputs and constants are single nodes and do not need to be extracted.
+        if (end - offset > 1)
+        {
+            register_se(exp, known, exp.nodes[end - 1].checksum, offset, end - offset, true);
+        }
+    }
+
     template <typename A, width_t C>
     constexpr static auto rpn_reshape(rpne<A, C> expr) noexcept
     {
@@ -294,24 +307,7 @@ namespace detail
             }
             case op_div: {
                 // Division requires its second operand to be extracted.
-
-                // Mark the last known se as required IF
-                // 1. The prior se is not a constant AND
-                // 2. The prior se is not a cse
-
-                if (i > 2)
-                {
-                    width_t last_offset = offsets.peek();
-                    node const& prev    = expr.nodes[last_offset];
-                    if (last_offset == i - 2 && !is_read_op(expr.nodes[i - 1].o))
-                    {
-                        known.ses[known.count - 1].required = true;
-                    }
-                    else if (last_offset < i - 2 && prev.o != op_cse && prev.checksum != i)
-                    {
-                        known.ses[known.count - 1].required = true;
-                    }
-                }
+                require_se(expr, known, offsets.peek(), i);
 
                 offsets.pop();
                 width_t offset = offsets.peek();
@@ -338,19 +334,8 @@ namespace detail
             case op_tan: {
                 width_t offset = offsets.peek();
 
-                // Check if the argument has been extracted. If not, mark it as required.
-                if (i > 2)
-                {
-                    node const& prev = expr.nodes[offset];
-                    if (offset == i - 2 && !is_read_op(expr.nodes[i - 1].o))
-                    {
-                        known.ses[known.count - 1].required = true;
-                    }
-                    else if (offset < i - 2 && !(prev.o == op_cse && prev.checksum == i))
-                    {
-                        known.ses[known.count - 1].required = true;
-                    }
-                }
+                // The argument needs to be extracted.
+                require_se(expr, known, offset, i);
 
                 width_t se_i = register_se(expr, known, n.checksum, offset, i - offset + 1, true);
                 if (se_i > 0)
-- 
2.43.0


From 9f769a76922da998a5d6bfb2bee23e93c3e48aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:53 +0000
Subject: [PATCH 13/29] fix: adjust the length of each result of a multi-result
 expression

---
 public/gal/dfa.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 6ab90ea..39a12e5 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -566,6 +566,15 @@ namespace detail
             }
         }
 
+        // The subexpressions left on the stack are the results of an expression with multiple
+        // results, which are not arguments of any op.
+        for (width_t k = 0; k != se_stack.count; ++k)
+        {
+            auto [se, offset]   = se_stack[k];
+            width_t next_offset = k + 1 == se_stack.count ? out.count + 1 : se_stack[k + 1].second;
+            se->ex              = next_offset - offset - 1;
+        }
+
         out.q = expr.q;
         return out;
     }
-- 
2.43.0


From 9afecba9c422bb3aa86764fbcba6312ba3fd88dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:14 +0000
Subject: [PATCH 14/29] fix: multivector form of PGA rotors, translators and
 vectors

---
 public/gal/pga.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index fd96af8..bfd5d9f 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -175,9 +175,9 @@ namespace pga
                      ind{id + 1, one}, // x * sin(t/2)
                      ind{id + 2, one}},
                     {mon{one, one, 1, 0},
-                     mon{one, one, 1, 1},
-                     mon{minus_one, rat{2}, 2, 2},
-                     mon{one, rat{2}, 2, 3}},
+                     mon{one, rat{2}, 2, 1},
+                     mon{minus_one, rat{2}, 2, 3},
+                     mon{one, rat{2}, 2, 5}},
                     {term{1, 0, 0b0}, term{1, 1, 0b110}, term{1, 2, 0b1010}, term{1, 3, 0b1100}}};
         }
 
@@ -236,14 +236,14 @@ namespace pga
                     {ind{id, one}, // d * l_x
                      ind{id + 1, one},
                      ind{id, one}, // d * l_y
-                     ind{id + 1, one},
+                     ind{id + 2, one},
                      ind{id, one}, // d * l_z
-                     ind{id + 2, one}},
+                     ind{id + 3, one}},
                     {
                         mon{one, zero, 0, 0},              // 1
-                        mon{minus_one_half, rat{2}, 2, 1}, // -1/2 * l_x
+                        mon{minus_one_half, rat{2}, 2, 0}, // -1/2 * l_x
                         mon{minus_one_half, rat{2}, 2, 2}, // -1/2 * l_y
-                        mon{minus_one_half, rat{2}, 2, 3}  // -1/2 * l_z
+                        mon{minus_one_half, rat{2}, 2, 4}  // -1/2 * l_z
                     },
                     {term{1, 0, 0b0}, term{1, 1, 0b11}, term{1, 2, 0b101}, term{1, 3, 0b1001}}};
         }
@@ -403,7 +403,7 @@ namespace pga
         // Like planes, points are represented dually as the intersection of three planes
         GAL_NODISCARD constexpr static mv<algebra_t, 3, 3, 3> ie(uint32_t id) noexcept
         {
-            return {mv_size{3, 4, 4},
+            return {mv_size{3, 3, 3},
                     {
                         ind{id + 2, one}, // -z
                         ind{id + 1, one}, // y
-- 
2.43.0


From d1da190b247d60c39294d5e2c6e2da7a75818ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:33 +0000
Subject: [PATCH 15/29] fix: multivector form and conversion of 2D points and
 vectors

---
 public/gal/pga2.hpp | 44 +++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/public/gal/pga2.hpp b/public/gal/pga2.hpp
index bdaada1..68aa93d 100644
--- a/public/gal/pga2.hpp
+++ b/public/gal/pga2.hpp
@@ -148,10 +148,10 @@ namespace pga2
         {
             return {mv_size{2, 3, 3},
                     {
-                        ind{id + 1, 1}, // -y
-                        ind{id, 1}      // x
+                        ind{id + 1, one}, // -y
+                        ind{id, one}      // x
                     },
-                    {mon{minus_one, one, 0, 1}, // -y
+                    {mon{minus_one, one, 1, 0}, // -y
                      mon{one, one, 1, 1},       // x
                      mon{one, zero, 0, 0}},     // point at origin
                     {
@@ -177,8 +177,8 @@ namespace pga2
             , y{in.template select<0b11>()}
         {
             auto w_inv = T{1} / in.template select<0b110>();
-            x          = w_inv;
-            y          = -w_inv;
+            x *= w_inv;
+            y *= -w_inv;
         }
 
         [[nodiscard]] constexpr T const& operator[](size_t index) const noexcept
@@ -199,52 +199,46 @@ namespace pga2
         using value_t                 = T;
         constexpr static bool is_dual = true;
 
-        std::array<T, 3> data;
+        std::array<T, 2> data;
         struct
         {
             T x;
             T y;
-            T z;
         };
 
-        // Like planes, points are represented dually as the intersection of three planes
-        [[nodiscard]] constexpr static mv<algebra_t, 3, 3, 3> ie(uint32_t id) noexcept
+        // A vector is an ideal point (the intersection of a line with the line at infinity)
+        [[nodiscard]] constexpr static mv<algebra_t, 2, 2, 2> ie(uint32_t id) noexcept
         {
-            return {mv_size{3, 4, 4},
+            return {mv_size{2, 2, 2},
                     {
-                        ind{id + 2, 1}, // -z
-                        ind{id + 1, 1}, // y
-                        ind{id, 1}      // -x
+                        ind{id + 1, one}, // -y
+                        ind{id, one}      // x
                     },
                     {
-                        mon{minus_one, one, 0, 1}, // -z
-                        mon{one, one, 1, 1},       // y
-                        mon{minus_one, one, 2, 1}  // -x
+                        mon{minus_one, one, 1, 0}, // -y
+                        mon{one, one, 1, 1}        // x
                     },
                     {
-                        term{1, 0, 0b111},  // -z * e012
-                        term{1, 1, 0b1011}, // y * e013
-                        term{1, 2, 0b1101}  // x * e023
+                        term{1, 0, 0b11}, // -y * e01
+                        term{1, 1, 0b101} // x * e02
                     }};
         }
 
         [[nodiscard]] constexpr static size_t size() noexcept
         {
-            return 3;
+            return 2;
         }
 
-        constexpr vector(T x, T y, T z) noexcept
+        constexpr vector(T x, T y) noexcept
             : x{x}
             , y{y}
-            , z{z}
         {}
 
         template <elem_t... E>
         constexpr vector(entity<pga2_algebra, T, E...> in) noexcept
-            : data{in.template select<0b1101, 0b1011, 0b111>()}
+            : data{in.template select<0b101, 0b11>()}
         {
-            z = -z;
-            x = -x;
+            y = -y;
         }
 
         [[nodiscard]] constexpr T const& operator[](size_t index) const noexcept
-- 
2.43.0


From b23b6891520111f6961c42d6fbbedb86f8ea57b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:33 +0000
Subject: [PATCH 16/29] fix: selecting several components of an exactly zero
 entity

---
 public/gal/entity.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/public/gal/entity.hpp b/public/gal/entity.hpp
index f8a6015..d861f86 100644
--- a/public/gal/entity.hpp
+++ b/public/gal/entity.hpp
@@ -148,9 +148,16 @@ struct entity<A, T>
     }
 
     template <elem_t... S>
-    GAL_NODISCARD constexpr T select() const noexcept
+    GAL_NODISCARD constexpr auto select() const noexcept
     {
-        return {0};
+        if constexpr (sizeof...(S) == 1)
+        {
+            return select(S...);
+        }
+        else
+        {
+            return std::array<T, sizeof...(S)>{};
+        }
     }
 
     GAL_NODISCARD constexpr T select(elem_t e) const noexcept
-- 
2.43.0


From 85716a32b9b9bbdb0614701eb789e4b10eff2084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:04 +0000
Subject: [PATCH 17/29] fix: logarithm of a half-turn motor

---
 public/gal/pga.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index bfd5d9f..b3f73d0 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -558,7 +558,8 @@ namespace pga
         entity<pga_algebra, T, 0, 0b1111> inv_norm{T{1} / s2, p2 / l2.template select<0>()};
 
         bool s1_zero = std::abs(s1) < T{1e-6};
-        scalar<pga_algebra, T> u{s1_zero ? ::std::atan2(-p1, p2) : ::std::atan2(s2, s1)};
+        // NOTE: s2 is nonnegative, and remains well-conditioned when s1 vanishes
+        scalar<pga_algebra, T> u{::std::atan2(s2, s1)};
         scalar<pga_algebra, T> v{s1_zero ? -p1 / s2 : p2 / s1};
 
         return compute(
-- 
2.43.0


From 461008f07895cacabf38e3a92b9ee67da9772b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:04 +0000
Subject: [PATCH 18/29] fix: grade selection visits every term

---
 public/gal/algebra.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/public/gal/algebra.hpp b/public/gal/algebra.hpp
index 70f154c..5a9c4ad 100644
--- a/public/gal/algebra.hpp
+++ b/public/gal/algebra.hpp
@@ -577,11 +577,8 @@ struct mv
         for (auto it = cbegin(); it != cend(); ++it)
         {
             auto g = pop_count(it->element);
-            if (g > grade)
-            {
-                break;
-            }
-            else if (g < grade)
+            // NOTE: terms are ordered by element, which does not order them by grade
+            if (g != grade)
             {
                 continue;
             }
-- 
2.43.0


From d7f1d376ee135abe63349b62353bdf4b925975f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:46 +0000
Subject: [PATCH 19/29] fix: literals, components and temporaries in a null
 basis

---
 public/gal/algebra.hpp |  4 ++--
 public/gal/dfa.hpp     | 37 ++++++++++++++++++++++++++++++-------
 public/gal/engine.hpp  | 12 ++----------
 3 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/public/gal/algebra.hpp b/public/gal/algebra.hpp
index 5a9c4ad..792edeb 100644
--- a/public/gal/algebra.hpp
+++ b/public/gal/algebra.hpp
@@ -501,8 +501,8 @@ struct mv
     constexpr mv<A, T, T, T> create_ref(uint32_t id) const noexcept
     {
         mv<A, T, T, T> out{};
-        out.size = mv_size{T, T, T};
-        for (width_t i = 0; i != T; ++i)
+        out.size = mv_size{size.term, size.term, size.term};
+        for (width_t i = 0; i != size.term; ++i)
         {
             out.inds[i]  = ind{id + i, one};
             out.mons[i]  = mon{one, one, 1, i};
diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 39a12e5..4325ad2 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -803,7 +803,16 @@ namespace detail
             else if constexpr (n.o == op_comp)
             {
                 constexpr auto pop  = State.args.pop();
-                constexpr auto comp = pop.first.second[n.ex];
+                constexpr auto comp = [](auto const& arg) {
+                    if constexpr (uses_null_basis<algebra_t>)
+                    {
+                        return to_null_basis(arg)[n.ex];
+                    }
+                    else
+                    {
+                        return arg[n.ex];
+                    }
+                }(pop.first.second);
                 return rpn_state{
                     State.inputs,
                     State.temps,
@@ -844,13 +853,27 @@ namespace detail
             }
             else
             {
-                auto g = n.o - c_scalar;
-                mv<algebra_t, 0, 1, 1> c{
+                constexpr auto g = n.o - c_scalar;
+                constexpr mv<algebra_t, 0, 1, 1> c{
                     mv_size{0, 1, 1}, {}, {mon{one, zero, 0, 0}}, {term{1, 0, g}}};
-                return rpn_state{State.inputs,
-                                 State.temps,
-                                 State.args.push(make_pair(n.checksum, c)),
-                                 State.id_count};
+                if constexpr (uses_null_basis<algebra_t>)
+                {
+                    constexpr auto nb = to_natural_basis(c);
+                    return rpn_state{
+                        State.inputs,
+                        State.temps,
+                        State.args.push(make_pair(
+                            n.checksum,
+                            nb.template resize<nb.size.ind, nb.size.mon, nb.size.term>())),
+                        State.id_count};
+                }
+                else
+                {
+                    return rpn_state{State.inputs,
+                                     State.temps,
+                                     State.args.push(make_pair(n.checksum, c)),
+                                     State.id_count};
+                }
             }
         }
 
diff --git a/public/gal/engine.hpp b/public/gal/engine.hpp
index 6fb1ac9..849e70f 100644
--- a/public/gal/engine.hpp
+++ b/public/gal/engine.hpp
@@ -265,16 +265,8 @@ namespace detail
             constexpr static auto ie = temps.template get<I>().ie;
             constexpr static auto o  = temps.template get<I>().o;
             constexpr static auto id = temps.template get<I>().id;
-            if constexpr (detail::uses_null_basis<A>)
-            {
-                constexpr static auto null_conversion = detail::to_null_basis(ie);
-                compute_temp<null_conversion, o, V, A>(
-                    data, std::make_index_sequence<null_conversion.size.term>{}, id);
-            }
-            else
-            {
-                compute_temp<ie, o, V, A>(data, std::make_index_sequence<ie.size.term>(), id);
-            }
+            // NOTE: temporaries are referred to in the natural basis
+            compute_temp<ie, o, V, A>(data, std::make_index_sequence<ie.size.term>(), id);
 
             if constexpr (I + 1 != std::decay_t<decltype(temps)>::size())
             {
-- 
2.43.0


From 6eef5ff14a0d51a0eb302d96caa1ce10827a8942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:41 +0000
Subject: [PATCH 20/29] fix: splitting a tuple at its front and dropping the
 indexed element

---
 public/gal/tuple.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/public/gal/tuple.hpp b/public/gal/tuple.hpp
index 5a05971..c3c16d7 100644
--- a/public/gal/tuple.hpp
+++ b/public/gal/tuple.hpp
@@ -128,8 +128,7 @@ struct tuple : public tuple_impl<std::make_index_sequence<sizeof...(T)>, T...>
     template <size_t I>
     constexpr auto split_drop() const
     {
-        return split_n(
-            std::make_index_sequence<I>{}, std::make_index_sequence<sizeof...(T) - I - 1>{});
+        return make_pair(split<I>().first, split<I + 1>().second);
     }
 
     // This is a somewhat specialized operation that splits the tuple on the first occurence of the
@@ -206,7 +205,7 @@ private:
     {
         if constexpr (sizeof...(I1) == 0)
         {
-            if constexpr (sizeof...(I1) == 0)
+            if constexpr (sizeof...(I2) == 0)
             {
                 return make_pair(tuple<>{}, tuple<>{});
             }
-- 
2.43.0


From bed911527ba0a27573ee74639c2eb1572fe93832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:03 +0000
Subject: [PATCH 21/29] fix: rational sign normalisation and comparison

---
 public/gal/numeric.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index 525f700..f38c672 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -185,7 +185,8 @@ struct rat
 
     [[nodiscard]] constexpr rat reciprocal() const noexcept
     {
-        return {den, num};
+        // The denominator is kept greater than zero
+        return num < 0 ? rat{-den, -num} : rat{den, num};
     }
 
     [[nodiscard]] constexpr rat negation() const noexcept
@@ -203,6 +204,13 @@ struct rat
     {
         num *= other.num;
         den *= other.den;
+        if (den < 0)
+        {
+            // The denominator is kept greater than zero
+            num = -num;
+            den = -den;
+        }
+
         if (num == 0)
         {
             den = 1;
@@ -374,18 +382,18 @@ namespace detail
 [[nodiscard]] constexpr bool operator==(rat lhs, rat rhs) noexcept
 {
     auto gcd1 = std::gcd(lhs.num, lhs.den);
-    auto gcd2 = std::gcd(rhs.den, rhs.den);
+    auto gcd2 = std::gcd(rhs.num, rhs.den);
     return lhs.num / gcd1 == rhs.num / gcd2 && lhs.den / gcd1 == rhs.den / gcd2;
 }
 
 [[nodiscard]] constexpr bool operator!=(rat lhs, int rhs) noexcept
 {
-    return lhs.den != 1 || lhs.num != rhs;
+    return lhs.num != rhs * lhs.den;
 }
 
 [[nodiscard]] constexpr bool operator!=(rat lhs, rat rhs) noexcept
 {
-    return lhs.num != rhs.num || lhs.den != rhs.den;
+    return !(lhs == rhs);
 }
 
 [[nodiscard]] constexpr bool operator<(rat lhs, rat rhs) noexcept
-- 
2.43.0


From bab2cd4c6a140142f41b647ddcb48a0bb5e70211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:16 +0000
Subject: [PATCH 22/29] fix: bound the error of the rational overflow gate

---
 public/gal/numeric.hpp | 38 ++++++++++----------------------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index f38c672..41fa8fc 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -328,8 +328,11 @@ namespace detail
             {
                 double n_d     = static_cast<double>(in.num);
                 double d_d     = static_cast<double>(in.den);
-                double epsilon = abs(n_d / d_d / d_d);
-                double frac    = n_d / d_d;
+                double frac = n_d / d_d;
+                // The numerator decides which neighbor of the mediant is a candidate
+                num_t n2       = in.num % 2 == 1 ? (in.num - 1) / 2 : in.num / 2;
+                den_t d2       = in.num % 2 == 1 ? in.den / 2 : (in.den - 1) / 2;
+                double epsilon = abs(static_cast<double>(n2) / static_cast<double>(d2) - frac);
 
                 if (abs(frac) < 1e-7)
                 {
@@ -338,36 +341,15 @@ namespace detail
                 else if (epsilon < 1e-7)
                 {
                     // The rational is the mediant of two fractions with smaller denominators. Pick
-                    // one of them based on the parity.
-                    if (in.num % 2 == 1)
+                    // one of them if it is close enough.
+                    auto gcd = std::gcd(n2, d2);
+                    if (gcd > 1)
                     {
-                        // Perturb to the left-side of the mediant
-                        auto n2  = (in.num - 1) / 2;
-                        auto d2  = in.den / 2;
-                        auto gcd = std::gcd(n2, d2);
-                        if (gcd > 1)
-                        {
-                            return {n2 / gcd, d2 / gcd};
-                        }
-                        else
-                        {
-                            return {n2, d2};
-                        }
+                        return {n2 / gcd, d2 / gcd};
                     }
                     else
                     {
-                        // Perturb to the right-side of the mediant
-                        auto n2  = in.num / 2;
-                        auto d2  = (in.den - 1) / 2;
-                        auto gcd = std::gcd(n2, d2);
-                        if (gcd > 1)
-                        {
-                            return {n2 / gcd, d2 / gcd};
-                        }
-                        else
-                        {
-                            return {n2, d2};
-                        }
+                        return {n2, d2};
                     }
                 }
                 else
-- 
2.43.0


From 7024e6ea47bbadb469df6ee83e39e39711219366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:33 +0000
Subject: [PATCH 23/29] fix: a generic bivector has only elements of grade two

---
 public/gal/geometric_algebra.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/public/gal/geometric_algebra.hpp b/public/gal/geometric_algebra.hpp
index 6f9534b..9f86d2a 100644
--- a/public/gal/geometric_algebra.hpp
+++ b/public/gal/geometric_algebra.hpp
@@ -126,7 +126,11 @@ struct algebra
             out.inds[i]  = ind{id++, one};
             out.mons[i]  = mon{one, one, 1, i};
             out.terms[i] = term{1, i, e};
-            e            = next_even(e);
+            // Skip the even elements of higher grade
+            do
+            {
+                e = next_even(e);
+            } while (pop_count(e) != 2);
         }
         return out;
     }
-- 
2.43.0


From 5d86a1f6e8771729a9d20bdedbae6ae2c16da6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:34 +0000
Subject: [PATCH 24/29] =?UTF-8?q?fix:=20y=20component=20of=20a=20line's=20?=
 =?UTF-8?q?Pl=C3=BCcker=20moment?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 public/gal/pga.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index b3f73d0..f4be57f 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -487,7 +487,7 @@ namespace pga
                     },
                     {
                         mon{minus_one, one, 1, 0}, // mx
-                        mon{one, one, 1, 1},       // my
+                        mon{minus_one, one, 1, 1}, // my
                         mon{minus_one, one, 1, 2}, // dz
                         mon{minus_one, one, 1, 3}, // mz
                         mon{one, one, 1, 4},       // dy
@@ -522,6 +522,7 @@ namespace pga
             : data{in.template select<0b1100, 0b1010, 0b110, 0b11, 0b101, 0b1001>()}
         {
             mx = -mx;
+            my = -my;
             mz = -mz;
             dx = -dx;
             dz = -dz;
-- 
2.43.0


From 4ebfbb419ccc61707a1a28c6a99f78cc51aabf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:17 +0000
Subject: [PATCH 25/29] fix: the scalar product includes the product of scalar
 components

---
 public/gal/expr.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 10ce2e7..41bd1c7 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -1181,11 +1181,12 @@ constexpr auto scalar_product(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2
         out.append(lhs);
     }
 
-    // Implement the scalar product as the scalar component of the symmetric inner product
+    // Implement the scalar product as the scalar component of the left contraction (the symmetric
+    // inner product would drop the product of the scalar components)
 
-    out.append(detail::op_sip);
+    out.append(detail::op_lc);
     out.nodes[out.count - 1].checksum
-        = detail::crc32(lhs.back().checksum + rhs.back().checksum + (detail::op_sip << 8));
+        = detail::crc32(lhs.back().checksum + rhs.back().checksum + (detail::op_lc << 8));
 
     out.append(detail::op_comp);
     out.nodes[out.count - 1].ex       = 0;
-- 
2.43.0


From 4a1535ac5b79bceccf3137885632829628b52fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:06 +0000
Subject: [PATCH 26/29] fix: the zeroth power is one

---
 public/gal/numeric.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index 41fa8fc..21258ef 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -23,6 +23,10 @@ pow(T s, std::integral_constant<int, N>, std::integral_constant<int, D>) noexcep
     {
         return std::pow(s, T{N} / T{D});
     }
+    else if constexpr (N == 0)
+    {
+        return T{1};
+    }
     else if constexpr (N == 1)
     {
         return s;
-- 
2.43.0


From 473be09c69f2ba03dfed781796450116bb97654b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:17 +0000
Subject: [PATCH 27/29] fix: 2D points and vectors lie on the lines through
 them

---
 public/gal/pga2.hpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/public/gal/pga2.hpp b/public/gal/pga2.hpp
index 68aa93d..11abe7e 100644
--- a/public/gal/pga2.hpp
+++ b/public/gal/pga2.hpp
@@ -148,15 +148,15 @@ namespace pga2
         {
             return {mv_size{2, 3, 3},
                     {
-                        ind{id + 1, one}, // -y
-                        ind{id, one}      // x
+                        ind{id + 1, one}, // y
+                        ind{id, one}      // -x
                     },
-                    {mon{minus_one, one, 1, 0}, // -y
-                     mon{one, one, 1, 1},       // x
+                    {mon{one, one, 1, 0},       // y
+                     mon{minus_one, one, 1, 1}, // -x
                      mon{one, zero, 0, 0}},     // point at origin
                     {
-                        term{1, 0, 0b11},  // -y * e01
-                        term{1, 1, 0b101}, // x * e02
+                        term{1, 0, 0b11},  // y * e01
+                        term{1, 1, 0b101}, // -x * e02
                         term{1, 2, 0b110}  // e12
                     }};
         }
@@ -177,8 +177,8 @@ namespace pga2
             , y{in.template select<0b11>()}
         {
             auto w_inv = T{1} / in.template select<0b110>();
-            x *= w_inv;
-            y *= -w_inv;
+            x *= -w_inv;
+            y *= w_inv;
         }
 
         [[nodiscard]] constexpr T const& operator[](size_t index) const noexcept
@@ -211,16 +211,16 @@ namespace pga2
         {
             return {mv_size{2, 2, 2},
                     {
-                        ind{id + 1, one}, // -y
-                        ind{id, one}      // x
+                        ind{id + 1, one}, // y
+                        ind{id, one}      // -x
                     },
                     {
-                        mon{minus_one, one, 1, 0}, // -y
-                        mon{one, one, 1, 1}        // x
+                        mon{one, one, 1, 0},      // y
+                        mon{minus_one, one, 1, 1} // -x
                     },
                     {
-                        term{1, 0, 0b11}, // -y * e01
-                        term{1, 1, 0b101} // x * e02
+                        term{1, 0, 0b11}, // y * e01
+                        term{1, 1, 0b101} // -x * e02
                     }};
         }
 
@@ -238,7 +238,7 @@ namespace pga2
         constexpr vector(entity<pga2_algebra, T, E...> in) noexcept
             : data{in.template select<0b101, 0b11>()}
         {
-            y = -y;
+            x = -x;
         }
 
         [[nodiscard]] constexpr T const& operator[](size_t index) const noexcept
-- 
2.43.0


From 4987b24158de78871b2a7c7735750eb0a232951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:02 +0000
Subject: [PATCH 28/29] fix: an entity without components can be iterated and
 indexed

---
 public/gal/entity.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/public/gal/entity.hpp b/public/gal/entity.hpp
index d861f86..874eb55 100644
--- a/public/gal/entity.hpp
+++ b/public/gal/entity.hpp
@@ -175,12 +175,12 @@ struct entity<A, T>
         return nullptr;
     }
 
-    GAL_NODISCARD constexpr auto begin() noexcept
+    GAL_NODISCARD constexpr T* begin() noexcept
     {
         return nullptr;
     }
 
-    GAL_NODISCARD constexpr auto end() noexcept
+    GAL_NODISCARD constexpr T* end() noexcept
     {
         return nullptr;
     }
@@ -190,7 +190,7 @@ struct entity<A, T>
         return {0};
     }
 
-    GAL_NODISCARD constexpr T& operator[](size_t index) noexcept
+    GAL_NODISCARD constexpr T operator[](size_t index) noexcept
     {
         return {0};
     }
-- 
2.43.0


From 62bf72f3c4321ba695d99c111b9ef0bcf4032921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:09 +0000
Subject: [PATCH 29/29] fix: functions of and division by an input whose
 components are polynomials

A bare input was assumed to be a monomial: dividing by an entity whose scalar
component is a sum only divided by its first monomial, and functions were
applied to each monomial.
---
 public/gal/dfa.hpp  | 15 +++++++++++++--
 public/gal/expr.hpp | 37 ++++++++++++++++++++++++++++++++++++-
 2 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 4325ad2..abb5910 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -236,13 +236,24 @@ namespace detail
     // each of its components consists of a single monomial.
     template <typename A, width_t C>
     constexpr void
-    require_se(rpne<A, C> const& exp, cses<C>& known, width_t offset, width_t end) noexcept
+    require_se(rpne<A, C>& exp, cses<C>& known, width_t offset, width_t end) noexcept
     {
-        // Bare inputs and constants are single nodes and do not need to be extracted.
+        node& n = exp.nodes[offset];
         if (end - offset > 1)
         {
             register_se(exp, known, exp.nodes[end - 1].checksum, offset, end - offset, true);
         }
+        else if (n.o == op_id && !n.q.is_zero())
+        {
+            // Other bare inputs and constants are monomials and do not need to be extracted.
+            width_t se_i = register_se(exp, known, n.checksum, offset, 1, true);
+            if (se_i > 0)
+            {
+                n.o        = op_cse;
+                n.checksum = end;
+                n.ex       = se_i - 1;
+            }
+        }
     }
 
     template <typename A, width_t C>
diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 41bd1c7..30fa234 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -108,6 +108,8 @@ namespace detail
         // This rational scaling constant can be used for sum subexpressions. If this is zero for a
         // subexpression, the subexpression is part of an exterior product.
         //
+        // For inputs, this is nonzero if a component of the input is a polynomial.
+        //
         // For sum and exterior product nodes, the denominator here contains the total length of the
         // expression that constitutes the subexpression up to and including the op_sum/op_ep.
         rat q{0, 0};
@@ -291,10 +293,43 @@ namespace detail
         }
     };
 
+    // Indicates if any component of an input of type D is a polynomial (as opposed to a monomial) in
+    // the values the input stores.
+    template <typename A, typename D>
+    constexpr bool is_polynomial() noexcept
+    {
+        if constexpr (std::is_floating_point_v<D>)
+        {
+            return false;
+        }
+        else
+        {
+            auto const ie = [] {
+                if constexpr (std::is_same_v<typename D::algebra_t, A>)
+                {
+                    return D::ie(0);
+                }
+                else
+                {
+                    return D::ie(A{}, 0);
+                }
+            }();
+
+            for (auto it = ie.cbegin(); it != ie.cend(); ++it)
+            {
+                if (it->count > 1)
+                {
+                    return true;
+                }
+            }
+            return false;
+        }
+    }
+
     template <typename A, size_t S, typename D, typename... Ds>
     constexpr auto rpne_entities(std::array<rpne<A, 1>, S>& out, uint32_t current_id, size_t i) noexcept
     {
-        out[i].nodes[0] = node{op_id, current_id, i};
+        out[i].nodes[0] = node{op_id, current_id, i, is_polynomial<A, D>() ? one : rat{0, 0}};
         out[i].count    = 1;
 
         if constexpr (sizeof...(Ds) > 0)
-- 
2.43.0

