From e1cd7d50a15799855dba258584834972c04d85e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 01/45] fix: matrix-vector product reshaped the vector with the
 size of the matrix

---
 include/tensor.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 8f8e552..53671d2 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -675,7 +675,7 @@ namespace ceras
             return multiply( reshape( lhs, {1UL, lhs.size()} ), rhs, ans );
 
         if ( 1 == rhs.ndim() )
-            return multiply( lhs, reshape( rhs, {lhs.size(), 1UL} ), ans );
+            return multiply( lhs, reshape( rhs, {rhs.size(), 1UL} ), ans );
 
         better_assert( 2 == rhs.ndim(), "expecting rhs tensor has 2 dimensions, but got ", rhs.ndim() );
 
-- 
2.43.0


From 1506912f4a25a737498af0f044acd6c0144278d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 02/45] fix: tensor addition and subtraction overwrote their
 left operand

---
 include/tensor.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 53671d2..937a7bc 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -578,7 +578,7 @@ namespace ceras
     Tsor add( Tsor const& lhs, Tsor const& rhs ) noexcept
     {
         auto const& broadcasted_shape = broadcast_shape( lhs.shape(), rhs.shape() );
-        auto llhs = broadcast_tensor( lhs, broadcasted_shape );
+        Tsor llhs = broadcast_tensor( lhs, broadcasted_shape ).deep_copy();
         auto const& rrhs = broadcast_tensor( rhs, broadcasted_shape );
 
         for_each( llhs.begin(), llhs.end(), rrhs.begin(), []( auto& x, auto const& y ) noexcept { x += y; } );
@@ -609,7 +609,7 @@ namespace ceras
     Tsor minus( Tsor const& lhs, Tsor const& rhs ) noexcept
     {
         auto const& broadcasted_shape = broadcast_shape( lhs.shape(), rhs.shape() );
-        auto llhs = broadcast_tensor( lhs, broadcasted_shape );
+        Tsor llhs = broadcast_tensor( lhs, broadcasted_shape ).deep_copy();
         auto const& rrhs = broadcast_tensor( rhs, broadcasted_shape );
 
         for_each( llhs.begin(), llhs.end(), rrhs.begin(), []( auto& x, auto const& y ) noexcept { x -= y; } );
-- 
2.43.0


From 32602e2a8dd8ccc1f702b50ea93488d933b6a3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 03/45] fix: maximum of a tensor without positive elements was
 the smallest positive number

---
 include/tensor.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 937a7bc..5200bb1 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1005,7 +1005,7 @@ namespace ceras
         typedef typename Tsor::value_type value_type;
         better_assert( tsor.size() != 0, "tensor::max error: input tensor should not be empty!" );
         if ( tsor.size() == 0 ) return value_type{0};
-        value_type ans = std::numeric_limits<value_type>::min();
+        value_type ans = std::numeric_limits<value_type>::lowest();
         for ( auto idx : range( tsor.size() ) )
             ans = std::max( tsor[idx], ans );
         return ans;
@@ -1187,7 +1187,7 @@ namespace ceras
     template <Tensor Tsor>
     Tsor max( Tsor const& ts, unsigned long axis, bool keepdims=false ) noexcept
     {
-        return reduce( ts, axis, std::numeric_limits<typename Tsor::value_type>::min(), []( auto const& a, auto const& b ){ return a > b ? a : b; }, keepdims );
+        return reduce( ts, axis, std::numeric_limits<typename Tsor::value_type>::lowest(), []( auto const& a, auto const& b ){ return a > b ? a : b; }, keepdims );
     }
 
     template <Tensor Tsor>
-- 
2.43.0


From befe2739dd4c93db4c721637c4ce31d7b8316512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 04/45] fix: pow passed its serializer as output shape
 calculator, shape() did not compile

---
 include/operation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index 4734758..9ea5d36 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -4920,6 +4920,7 @@ namespace ceras
                                         return ans;
                                     },
                                     "pow",
+                                    identity_output_shape_calculator{},
                                     [exponent]<Expression Self_Expression, Expression Input_Expression>( Self_Expression const& self_expression, Input_Expression const& input_expression ) noexcept
                                     { // serializer
                                         auto const& [input_expression_name, input_expression_code] = serialize( input_expression );
-- 
2.43.0


From 79d1e0e2b6e99f363ee8faed852ef25b0265cc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 05/45] fix: gradient of log1p was the gradient of log

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 9ea5d36..f9c96fe 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -4409,7 +4409,7 @@ namespace ceras
                                     {
                                         Tsor& ans = context_cast<Tsor>( backward_cache );
                                         ans.resize( input.shape() );
-                                        for_each( input.begin(), input.end(), grad.begin(), ans.begin(), []( auto x, auto g, auto& v ) noexcept { v = g / x; } );
+                                        for_each( input.begin(), input.end(), grad.begin(), ans.begin(), []( auto x, auto g, auto& v ) noexcept { v = g / ( 1 + x ); } );
                                         return ans;
                                     },
                                     "log1p"
-- 
2.43.0


From 592f81db52596f451b2d74afc27584ae912f4a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 06/45] fix: backward pass of clip overwrote the gradient of
 its caller

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index f9c96fe..2fa7550 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1092,7 +1092,7 @@ namespace ceras
                                         {
                                             better_assert( !has_nan( grad ), "input gradient for operator clip contains NaN!" );
                                             const typename Tsor::value_type zero{0};
-                                            Tsor ans = grad;
+                                            Tsor ans = grad.deep_copy();
                                             for ( auto idx : range( input.size() ) )
                                                 ans[idx] = (input[idx] < lower) ? zero :
                                                            (input[idx] > upper) ? zero :
-- 
2.43.0


From c42be7bd6282c03abcbdce23849d1f93fb81e672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:11 +0000
Subject: [PATCH 07/45] fix: gradient of atan2 had the wrong sign for both
 operands

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 2fa7550..c2d3b0e 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2576,7 +2576,7 @@ namespace ceras
                 l_ans.resize( lhs_input.shape() );
                 Tsor& r_ans = context_cast<Tsor>( backward_cache_rhs );
                 r_ans.resize( rhs_input.shape() );
-                for_each( grad.begin(), grad.end(), l_ans.begin(), r_ans.begin(), lhs_input.begin(), rhs_input.begin(), []( auto const g, auto& l, auto& r, auto const x, auto const y ) { auto const c = x*x+y*y; l = -g*y/c; r = g*x/c; } );
+                for_each( grad.begin(), grad.end(), l_ans.begin(), r_ans.begin(), lhs_input.begin(), rhs_input.begin(), []( auto const g, auto& l, auto& r, auto const x, auto const y ) { auto const c = x*x+y*y; l = g*y/c; r = -g*x/c; } );
                 return std::make_tuple( l_ans, r_ans );
             },
             "atan2"
-- 
2.43.0


From b6ad10a61d5370ee860cbd43d78ec96dd3efc3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:11 +0000
Subject: [PATCH 08/45] fix: gradient of minimum went to the larger operand

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index c2d3b0e..6f3ee2c 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2543,7 +2543,7 @@ namespace ceras
                 Tsor& r_ans = context_cast<Tsor>( backward_cache_rhs );
                 r_ans.resize( rhs_input.shape() );
 
-                for_each( grad.begin(), grad.end(), mask.begin(), l_ans.begin(), r_ans.begin(), []( auto const g, auto const m, auto& l, auto& r ) { if ( m < 0.5 ) { l = g; r = 0.0; } else { l = 0.0; r = g; } } );
+                for_each( grad.begin(), grad.end(), mask.begin(), l_ans.begin(), r_ans.begin(), []( auto const g, auto const m, auto& l, auto& r ) { if ( m > 0.5 ) { l = g; r = 0.0; } else { l = 0.0; r = g; } } );
 
                 return std::make_tuple( l_ans, r_ans );
             },
-- 
2.43.0


From 66caf52578d0cbcf3968dfccc14f3d10bc37643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:11 +0000
Subject: [PATCH 09/45] fix: dividing a number by an expression did not compile

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 6f3ee2c..0c81216 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -792,7 +792,7 @@ namespace ceras
     template< Expression Ex, arithmetic A >
     auto constexpr operator / ( A const& lhs_val, Ex const& ex ) noexcept
     {
-        return ex * inverse( lhs_val );
+        return lhs_val * inverse( ex );
     }
 
 
-- 
2.43.0


From ff7ce1a69b978ea41dded9c0200ca3cd377777c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 10/45] fix: leaky_relu and elu named a serializer that does
 not exist and did not compile

---
 include/activation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index c10ae63..c9f0229 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -419,7 +419,8 @@ namespace ceras
                                             return ans;
                                         },
                                         "leaky_relu",
-                                        make_argumented_unary_operator_serializer( factor )
+                                        identity_output_shape_calculator{},
+                                        make_argumented_operator_serializer( factor )
                     )( ex );
         };
     }
@@ -473,7 +474,8 @@ namespace ceras
                                             return ans;
                                         },
                                         "elu",
-                                        make_argumented_unary_operator_serializer( alpha )
+                                        identity_output_shape_calculator{},
+                                        make_argumented_operator_serializer( alpha )
                     )( ex );
         };
     }
-- 
2.43.0


From b45f3f11d1a9faa0e552966ed49172f6076ecf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 11/45] fix: backward passes of the activations overwrote the
 gradient of their caller

---
 include/activation.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index c9f0229..fca7b92 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -108,7 +108,7 @@ namespace ceras
                                     []<Tensor Tsor>( Tsor const&, Tsor const& output, Tsor const& grad ) noexcept
                                     {
                                         better_assert( !has_nan( grad ), "backprop: upcoming gradient for activation softmax contains NaN" );
-                                        Tsor ans = grad;
+                                        Tsor ans = grad.deep_copy();
                                         for_each( ans.begin(), ans.end(), output.begin(), []( auto& a, auto o ) { a *= o * ( typename Tsor::value_type{1} - o ); } );
                                         return ans;
                                     },
@@ -303,7 +303,7 @@ namespace ceras
                     better_assert( output.size(), "relu::backward: empty output." );
                     better_assert( grad.size(), "relu::backward: empty grad." );
                     typedef typename Tsor::value_type value_type;
-                    Tsor ans = grad; // shallow copy
+                    Tsor ans = grad.deep_copy();
                     //for_each( ans.begin(), ans.end(), input.begin(), []( auto& v, auto x ){ if ( x <= value_type{0} ) v = value_type{0}; } );
                     for_each( ans.begin(), ans.end(), input.begin(), []( auto& v, auto x ){  v *= ( x > value_type{0} ); } );
                     return ans;
@@ -356,7 +356,7 @@ namespace ceras
                 return []<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                 {
                     typedef typename Tsor::value_type value_type;
-                    Tsor ans = grad; // shallow copy
+                    Tsor ans = grad.deep_copy();
                     //const typename Tsor::value_type zero{0};
                     for_each( ans.begin(), ans.end(), input.begin(), []( auto& v, auto x ){ if ( (x <= value_type{0}) || (x >= value_type{6}) ) v = value_type{0}; } );
                     return ans;
@@ -414,7 +414,7 @@ namespace ceras
                                         [factor]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                         {
                                             typedef typename Tsor::value_type value_type;
-                                            Tsor ans = grad;// OK for shallow copy
+                                            Tsor ans = grad.deep_copy();
                                             for_each( ans.begin(), ans.end(), input.begin(), [factor]( value_type& v_back, value_type const v_in ){ v_back = (v_in > value_type{0}) ? v_back : factor*v_back; } );
                                             return ans;
                                         },
@@ -469,7 +469,7 @@ namespace ceras
                                         [alpha]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                         {
                                             typedef typename Tsor::value_type value_type;
-                                            Tsor ans = grad;// OK for shallow copy
+                                            Tsor ans = grad.deep_copy();
                                             for_each( ans.begin(), ans.end(), input.begin(), [alpha]( value_type& v_back, value_type const v_in ){ v_back = (v_in >= value_type{0}) ? v_back : alpha*std::exp(v_back); } );
                                             return ans;
                                         },
@@ -508,7 +508,7 @@ namespace ceras
                                     },
                                     []<Tensor Tsor>( Tsor const&, Tsor const& output, Tsor const& grad ) noexcept
                                     {
-                                        Tsor ans = grad;
+                                        Tsor ans = grad.deep_copy();
                                         for_each( ans.begin(), ans.end(), output.begin(), []( auto& a, auto o ){ a *= o; } );
                                         return ans;
                                     },
@@ -544,7 +544,7 @@ namespace ceras
                                     []<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                     {
                                         typedef typename Tsor::value_type value_type;
-                                        Tsor ans = grad;
+                                        Tsor ans = grad.deep_copy();
                                         for_each( ans.begin(), ans.end(), input.begin(), []( auto& a, auto x ) { a = ((x > value_type{1}) || (x < value_type{-1})) ? value_type{0} : (a / value_type{2}); } );
                                         return ans;
                                     },
@@ -602,7 +602,7 @@ namespace ceras
                                     [_dgelu]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
                                     {
                                         //typedef typename Tsor::value_type value_type;
-                                        Tsor ans = grad;
+                                        Tsor ans = grad.deep_copy();
                                         for_each( ans.begin(), ans.end(), [&_dgelu]( auto& x ) {  x = _dgelu(x); } );
                                         return ans;
                                     },
-- 
2.43.0


From da82db9e03578aa03c0ad5b51755760b019c52da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 12/45] fix: backward pass of softmax ignored the off-diagonal
 part of the Jacobian

---
 include/activation.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index fca7b92..e6c542c 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -109,7 +109,12 @@ namespace ceras
                                     {
                                         better_assert( !has_nan( grad ), "backprop: upcoming gradient for activation softmax contains NaN" );
                                         Tsor ans = grad.deep_copy();
-                                        for_each( ans.begin(), ans.end(), output.begin(), []( auto& a, auto o ) { a *= o * ( typename Tsor::value_type{1} - o ); } );
+                                        std::size_t const last_dim = *(output.shape().rbegin());
+                                        for ( auto idx : range( output.size() / last_dim ) )
+                                        {
+                                            auto const dot = std::inner_product( grad.begin()+idx*last_dim, grad.begin()+(idx+1)*last_dim, output.begin()+idx*last_dim, typename Tsor::value_type{0} );
+                                            for_each( ans.begin()+idx*last_dim, ans.begin()+(idx+1)*last_dim, output.begin()+idx*last_dim, [dot]( auto& a, auto o ) { a = o * ( a - dot ); } );
+                                        }
                                         return ans;
                                     },
                                     "softmax"
-- 
2.43.0


From 95aee799688e6458616a8b1a15e63bd20e9abdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 13/45] fix: gradient of softplus had the wrong sign in its
 denominator

---
 include/activation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index e6c542c..dd54635 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -196,7 +196,7 @@ namespace ceras
                                     {
                                         Tsor& ans = context_cast<Tsor>( backward_cache );
                                         ans.resize( input.shape() ); // 1 / ( 1 + exp(-x) )
-                                        for_each( ans.begin(), ans.end(), input.begin(), grad.begin(), []( auto& a, auto i, auto g ){ a = g / ( typename Tsor::value_type{1} - std::exp(-i) ); } );
+                                        for_each( ans.begin(), ans.end(), input.begin(), grad.begin(), []( auto& a, auto i, auto g ){ a = g / ( typename Tsor::value_type{1} + std::exp(-i) ); } );
                                         return ans;
                                     },
                                     "softplus"
-- 
2.43.0


From 850c96f57b1ee835fc1d0dde76c7a681785ed08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 14/45] fix: gradient of elu for negative inputs did not depend
 on the input

---
 include/activation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index dd54635..859a4cd 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -475,7 +475,7 @@ namespace ceras
                                         {
                                             typedef typename Tsor::value_type value_type;
                                             Tsor ans = grad.deep_copy();
-                                            for_each( ans.begin(), ans.end(), input.begin(), [alpha]( value_type& v_back, value_type const v_in ){ v_back = (v_in >= value_type{0}) ? v_back : alpha*std::exp(v_back); } );
+                                            for_each( ans.begin(), ans.end(), input.begin(), [alpha]( value_type& v_back, value_type const v_in ){ v_back = (v_in >= value_type{0}) ? v_back : v_back*alpha*std::exp(v_in); } );
                                             return ans;
                                         },
                                         "elu",
-- 
2.43.0


From 545dbfa96f31abfb3654446bc3183c05c6dc232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 15/45] fix: gradient of gelu was evaluated at the upstream
 gradient, with a misplaced factor

---
 include/activation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 859a4cd..c1c64ac 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -589,7 +589,7 @@ namespace ceras
         {
             auto const sq_2_pi_x = 0.79788456080286535588 * x;
             auto const _xx = x * x;
-            auto const ans = 0.5 * ( 1.0 + std::tanh( sq_2_pi_x * ( 1.0 + 0.044715 * _xx ) ) ) + sq_2_pi_x * sech_2( sq_2_pi_x * (1.0 + 0.044715 * _xx ) * ( 1.0 + 0.134145 * _xx) );
+            auto const ans = 0.5 * ( 1.0 + std::tanh( sq_2_pi_x * ( 1.0 + 0.044715 * _xx ) ) ) + 0.5 * sq_2_pi_x * sech_2( sq_2_pi_x * (1.0 + 0.044715 * _xx ) ) * ( 1.0 + 0.134145 * _xx );
             return static_cast<T>( ans );
         };
 
@@ -604,11 +604,11 @@ namespace ceras
                                         ans.map([_gelu](auto& x) { x = _gelu(x); });
                                         return ans;
                                     },
-                                    [_dgelu]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
+                                    [_dgelu]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                     {
                                         //typedef typename Tsor::value_type value_type;
                                         Tsor ans = grad.deep_copy();
-                                        for_each( ans.begin(), ans.end(), [&_dgelu]( auto& x ) {  x = _dgelu(x); } );
+                                        for_each( ans.begin(), ans.end(), input.begin(), [&_dgelu]( auto& g, auto x ) {  g *= _dgelu(x); } );
                                         return ans;
                                     },
                                     "gelu"
-- 
2.43.0


From 012d8f01fe6da76a99cad597a299d3b76e95e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 16/45] fix: mish and lisht computed a matrix product instead
 of an element-wise one

---
 include/activation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index c1c64ac..2cdc02c 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -680,7 +680,7 @@ namespace ceras
     template< Expression Ex >
     auto mish( Ex const& ex ) noexcept
     {
-        return ex*tanh(softplus(ex));
+        return elementwise_product( ex, tanh(softplus(ex)) );
     }
 
 
@@ -695,7 +695,7 @@ namespace ceras
     template< Expression Ex >
     auto lisht( Ex const& ex ) noexcept
     {
-        return ex*tanh(ex);
+        return elementwise_product( ex, tanh(ex) );
     }
 
 }//namespace ceras
-- 
2.43.0


From bbfba190623b55df7d8b196f5a361af4afc54bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 17/45] fix: backward pass of concatenate mixed iterators of
 two different copies of the shape

---
 include/operation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 0c81216..1089627 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2410,8 +2410,9 @@ namespace ceras
                                     " with lhs dim is ", l_ans.ndim(), "  and rhs dim is ", r_ans.ndim() );
 
                     // 2D view of grad
+                    auto const& g_shape = grad.shape();
                     unsigned long const ax = (axe == (unsigned long)(-1)) ? grad.ndim()-1 : axe;
-                    unsigned long const g_col = std::accumulate( grad.shape().begin()+ax, grad.shape().end(), 1UL, []( unsigned long x, unsigned long y ){ return x*y; } );
+                    unsigned long const g_col = std::accumulate( g_shape.begin()+ax, g_shape.end(), 1UL, []( unsigned long x, unsigned long y ){ return x*y; } );
                     unsigned long const g_row = grad.size() / g_col;
                     view_2d<value_type> v_g{ grad.data(), g_row, g_col };
 
-- 
2.43.0


From cd91df5217f1ccd45cbfb4c16de9f532901e6251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 18/45] fix: repeat and concatenate of tensors mixed iterators
 of two different copies of the shape

---
 include/tensor.tcc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 5200bb1..5373031 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -757,7 +757,8 @@ namespace ceras
 
             std::vector<unsigned long>  new_shape;
             new_shape.push_back( n );
-            std::copy( tsor.shape().begin(), tsor.shape().end(), std::back_inserter( new_shape ) );
+            auto const& shape = tsor.shape();
+            std::copy( shape.begin(), shape.end(), std::back_inserter( new_shape ) );
             ans.reshape( new_shape );
         }
 
@@ -920,10 +921,12 @@ namespace ceras
         // axis alignment
         if ( lhs.ndim() > rhs.ndim() )
         {
-            unsigned long const dims_to_repeat = std::accumulate( lhs.shape().begin(), lhs.shape().begin()+lhs.ndim()-rhs.ndim(), 1UL, [](auto x, auto y ){ return x*y; } );
+            auto const& lhs_shape = lhs.shape();
+            auto const& rhs_shape = rhs.shape();
+            unsigned long const dims_to_repeat = std::accumulate( lhs_shape.begin(), lhs_shape.begin()+lhs.ndim()-rhs.ndim(), 1UL, [](auto x, auto y ){ return x*y; } );
             auto new_rhs = repeat( rhs, dims_to_repeat );
-            std::vector<unsigned long> new_shape{ lhs.shape().begin(), lhs.shape().begin()+lhs.ndim()-rhs.ndim() };
-            std::copy( rhs.shape().begin(), rhs.shape().end(), std::back_inserter( new_shape ) );
+            std::vector<unsigned long> new_shape{ lhs_shape.begin(), lhs_shape.begin()+lhs.ndim()-rhs.ndim() };
+            std::copy( rhs_shape.begin(), rhs_shape.end(), std::back_inserter( new_shape ) );
             new_rhs.reshape( new_shape );
             return concatenate( lhs, new_rhs, axis );
         }
-- 
2.43.0


From 3eb53dfd3f556fa090f11aa79ce11371e74e372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:41 +0000
Subject: [PATCH 19/45] fix: shape of reduce_min/reduce_max/reduce_sum with the
 default axis ran past the end of the shape

---
 include/operation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 1089627..0b42436 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -3334,7 +3334,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> ans = shape;
                     auto new_axis = std::min( axis, shape.size()-1 );
-                    std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+new_axis );
+                    std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
                     return ans;
                 },
@@ -3469,7 +3469,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> ans = shape;
                     auto const new_axis = std::min( axis, shape.size()-1 );
-                    std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+new_axis );
+                    std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
                     return ans;
                 },
@@ -3585,7 +3585,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> ans = shape;
                     auto const new_axis = std::min( axis, shape.size()-1 );
-                    std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+new_axis );
+                    std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
                     return ans;
                 },
-- 
2.43.0


From 33744d0e335903a054ca0b18ac33b18bdd7c1e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:15 +0000
Subject: [PATCH 20/45] fix: copies of an operator share its evaluated inputs,
 so a shared sub-expression is differentiated

---
 include/operation.hpp | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 0b42436..a651463 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -55,6 +55,8 @@ namespace ceras
         enable_id<unary_operator<Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer>, "Unary_Operator">,
         enable_unary_serializer<unary_operator<Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer> >
     {
+        typedef decltype( std::declval<Forward_Action>()( std::declval<Operator>().forward() ) ) tensor_type;
+
         struct unary_operator_state
         {
             Operator op_;
@@ -62,19 +64,18 @@ namespace ceras
             Backward_Action backward_action_;
             Output_Shape_Calculator output_shape_calculator_;
             Serializer serializer_;
+            tensor_type input_data_{}; // shared by all the copies of this operator, as only one of them evaluates it in a forward pass
+            tensor_type output_data_{};
         };
         std::shared_ptr<unary_operator_state> state_;
 
-        typedef decltype( std::declval<Forward_Action>()( std::declval<Operator>().forward() ) ) tensor_type;
-
-        tensor_type input_data_;
-        tensor_type output_data_;
-
         unary_operator( Operator const& op, Forward_Action const& forward_action, Backward_Action const& backward_action, Output_Shape_Calculator const& output_shape_calculator, Serializer const& serializer ) noexcept : state_{ std::make_shared<unary_operator_state>( op, forward_action, backward_action, output_shape_calculator, serializer ) } {}
 
         auto forward()
         {
             auto& sess = get_default_session<tensor_type>();
+            auto& input_data_ = (*state_).input_data_;
+            auto& output_data_ = (*state_).output_data_;
             output_data_= sess.query_forward_cache( (*this).id() );
 
             if ( output_data_.empty() )
@@ -89,7 +90,7 @@ namespace ceras
 
         void backward( tensor_type const& grad )
         {
-            auto const& current_gradient = backward_action()( input_data_, output_data_, grad );
+            auto const& current_gradient = backward_action()( (*state_).input_data_, (*state_).output_data_, grad );
             op().backward( current_gradient );
         }
 
@@ -106,8 +107,8 @@ namespace ceras
         Backward_Action const& backward_action() const { return state_->backward_action_; }
         Output_Shape_Calculator const& output_shape_calculator() const { return state_->output_shape_calculator_; }
         Serializer const& serializer() const { return state_->serializer_; }
-        tensor_type output_data() { return output_data_; }
-        tensor_type input_data() { return input_data_; }
+        tensor_type output_data() { return (*state_).output_data_; }
+        tensor_type input_data() { return (*state_).input_data_; }
 
         Operator& op() { return state_->op_; }
         Forward_Action& forward_action() { return state_->forward_action_; }
@@ -145,6 +146,8 @@ namespace ceras
         enable_id<binary_operator<Lhs_Operator, Rhs_Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer>, "Binary Operator">,
         enable_binary_serializer<binary_operator<Lhs_Operator, Rhs_Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer>>
     {
+        typedef typename tensor_deduction<Lhs_Operator, Rhs_Operator>::tensor_type tensor_type; // defined in value.hpp
+
         struct binary_operator_state
         {
             Lhs_Operator lhs_op_;
@@ -153,21 +156,21 @@ namespace ceras
             Backward_Action backward_action_;
             Output_Shape_Calculator output_shape_calculator_;
             Serializer serializer_;
+            tensor_type lhs_input_data_{}; // shared by all the copies of this operator, as only one of them evaluates it in a forward pass
+            tensor_type rhs_input_data_{};
+            tensor_type output_data_{};
         };
         std::shared_ptr<binary_operator_state> state_;
 
-        typedef typename tensor_deduction<Lhs_Operator, Rhs_Operator>::tensor_type tensor_type; // defined in value.hpp
-
-        tensor_type lhs_input_data_;
-        tensor_type rhs_input_data_;
-        tensor_type output_data_;
-
         binary_operator( Lhs_Operator const& lhs_op, Rhs_Operator const& rhs_op, Forward_Action const& forward_action, Backward_Action const& backward_action, Output_Shape_Calculator const& output_shape_calculator, Serializer const& serializer) noexcept :
             state_{ std::make_shared<binary_operator_state>(lhs_op, rhs_op, forward_action, backward_action, output_shape_calculator, serializer) } {}
 
         auto forward()
         {
             auto& sess = get_default_session<tensor_type>();
+            auto& lhs_input_data_ = (*state_).lhs_input_data_;
+            auto& rhs_input_data_ = (*state_).rhs_input_data_;
+            auto& output_data_ = (*state_).output_data_;
             output_data_= sess.query_forward_cache( (*this).id() );
 
             if ( !output_data_.empty() )
@@ -201,7 +204,7 @@ namespace ceras
         ///
         void backward( tensor_type const& grad )
         {
-            auto const& [current_gradient_lhs, current_gradient_rhs] = backward_action()( lhs_input_data_, rhs_input_data_, output_data_, grad );
+            auto const& [current_gradient_lhs, current_gradient_rhs] = backward_action()( (*state_).lhs_input_data_, (*state_).rhs_input_data_, (*state_).output_data_, grad );
             lhs_op().backward( current_gradient_lhs );
             rhs_op().backward( current_gradient_rhs );
         }
@@ -234,9 +237,9 @@ namespace ceras
         Output_Shape_Calculator& output_shape_calculator() { return state_->output_shape_calculator_; }
         Serializer& serializer() { return state_->serializer_; }
 
-        tensor_type output_data() { return output_data_; }
-        tensor_type lhs_input_data() { return lhs_input_data_; }
-        tensor_type rhs_input_data() { return rhs_input_data_; }
+        tensor_type output_data() { return (*state_).output_data_; }
+        tensor_type lhs_input_data() { return (*state_).lhs_input_data_; }
+        tensor_type rhs_input_data() { return (*state_).rhs_input_data_; }
     }; // struct binary_operator
 
     template< typename Forward_Action, typename Backward_Action, typename Output_Shape_Calculator= identity_output_shape_calculator, typename Serializer = default_binary_expression_serializer >
-- 
2.43.0


From d17a1dceb3da79559bc2f1cd5d737fef0b1c3212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:27 +0000
Subject: [PATCH 21/45] fix: each application of a layer operator owns its
 evaluation buffers (applying one operator to two expressions)

---
 include/operation.hpp | 122 ++++++++++++++++++------------------------
 1 file changed, 53 insertions(+), 69 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index a651463..ed32780 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -466,11 +466,10 @@ namespace ceras
     ///
     auto inline broadcast( std::vector<unsigned long> const& new_shape ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [new_shape, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [new_shape]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 [new_shape, forward_cache]<Tensor Tsor>( Tsor const& input )noexcept
@@ -1331,11 +1330,10 @@ namespace ceras
     ///
     auto inline argmax( unsigned long axis=0 ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -1624,11 +1622,10 @@ namespace ceras
             }
         };
 
-        std::shared_ptr<std::any> output_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> back_grad_cache = std::make_shared<std::any>();
-
-        return [row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation, img2col_forward, img2col_backward, output_cache, back_grad_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation, img2col_forward, img2col_backward]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> output_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> back_grad_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const & tsor ) noexcept
@@ -1772,9 +1769,6 @@ namespace ceras
         std::string const& padding="valid"
     ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
         auto shape_calculator = [=]( std::vector<unsigned long> const& old_shape )
         {
             std::vector<unsigned long> new_shape = old_shape;
@@ -1790,6 +1784,8 @@ namespace ceras
 
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -1888,12 +1884,11 @@ namespace ceras
         better_assert( factor < T{1}, "Expecting drop out rate less than 1, but got factor = ", factor );
         better_assert( factor > T{0}, "Expecting drop out rate greater than 0, but got factor = ", factor );
 
-        std::shared_ptr<std::any> mask = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [factor, mask, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [factor]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> mask = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 [factor, mask, forward_cache]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -2051,12 +2046,11 @@ namespace ceras
     {
         better_assert( stride > 1, "Expecting max_pooling_2d stride greater than 1, but got ", stride );
 
-        std::shared_ptr<std::any> mask = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [stride, mask, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [stride]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> mask = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 max_pooling_2d_context{}.make_forward()( stride, mask, forward_cache ),
@@ -2076,11 +2070,10 @@ namespace ceras
     {
         better_assert( stride > 1, "Expecting average_pooling_2d stride greater than 1, but got ", stride );
 
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [stride, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [stride]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 [stride, forward_cache]<Tensor Tsor>( Tsor const& input ) noexcept // [BS, R, C, CH] --> [BS, R/s, C/s, CH]
@@ -2216,11 +2209,10 @@ namespace ceras
     {
         better_assert( stride > 1, "Expecting up_sampling_pooling_2d stride greater than 1, but got ", stride );
 
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [stride, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [stride]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 up_sampling_2d_context{}.make_forward()( stride, forward_cache ),
@@ -2247,15 +2239,14 @@ namespace ceras
     template< typename T=double > requires std::floating_point<T>
     inline auto normalization_batch( T const momentum=0.98 ) noexcept
     {
-        std::shared_ptr<std::any> global_average_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> global_variance_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> average_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> variance_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> global_average_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> global_variance_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> average_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> variance_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -2849,11 +2840,10 @@ namespace ceras
         better_assert( right >= 1, "Expecting zero_padding_2d right padding no less than 1, but got ", right );
 
         // to avoid re-allocating memory for tensors
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [padding, top, bottom, left, right, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [padding, top, bottom, left, right]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 zero_padding_2d_context{}.make_forward()( top, bottom, left, right, forward_cache ),
@@ -2974,11 +2964,10 @@ namespace ceras
         better_assert( right >= 1, "Expecting cropping_2d right padding no less than 1, but got ", right );
 
         // to avoid re-allocating memory for tensors
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [padding, top, bottom, left, right, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [padding, top, bottom, left, right]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 cropping_2d_context{}.make_forward()( top, bottom, left, right, forward_cache ),
@@ -3091,12 +3080,11 @@ namespace ceras
 
     inline auto sliding_2d( unsigned long pixels ) noexcept
     {
-        std::shared_ptr<std::any> shift_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> shift_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return cropping_2d( {pixels,} )( detailed_sliding_2d(pixels, shift_cache, forward_cache, backward_cache)( zero_padding_2d( {pixels,} )( ex ) )  );
         };
     }
@@ -3190,11 +3178,10 @@ namespace ceras
     {
         better_assert( repeats > 0, "repeat: repeats can not be zero." );
 
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [repeats, axis, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [repeats, axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 repeat_context{}.make_forward()( repeats, axis, forward_cache ),
@@ -3322,12 +3309,11 @@ namespace ceras
     ///
     inline auto reduce_min( unsigned long axis=-1 ) noexcept
     {
-        std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [axis, index_cache, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 reduce_min_context{}.make_forward()( axis, forward_cache, index_cache ),
@@ -3457,12 +3443,11 @@ namespace ceras
     ///
     inline auto reduce_max( unsigned long axis=-1 ) noexcept
     {
-        std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [axis, index_cache, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 reduce_max_context{}.make_forward()( axis, forward_cache, index_cache ),
@@ -3574,11 +3559,10 @@ namespace ceras
     ///
     inline auto reduce_sum( unsigned long axis ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [axis, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 reduce_sum_context{}.make_forward()( axis, forward_cache ),
-- 
2.43.0


From e42d4622370a3e9dc3f972a49a1e694c2bd03407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:46 +0000
Subject: [PATCH 22/45] fix: img2col records its index per application and per
 input shape

---
 include/operation.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index ed32780..c4be91b 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1530,11 +1530,11 @@ namespace ceras
     {
         if ( col_kernel == (unsigned long)-1 ) col_kernel = row_kernel;
 
-        std::shared_ptr<std::vector<std::uint32_t>> s_index_record = std::make_shared<std::vector<std::uint32_t>>(); // col_img[idx] = img[index_record[idx]]  -- (-1) for zero padding
-
-        auto img2col_forward = [s_index_record]<Tensor Tsor>
+        auto img2col_forward = []<Tensor Tsor>
         (
             Tsor const& input_img, Tsor& output_col_mat,
+            std::vector<std::uint32_t>& index_record, //32 bit should be enough for memory address offeset
+            std::vector<unsigned long>& index_shape, // the input shape for which the index was recorded
             unsigned long kernel_row, unsigned long kernel_col,
             unsigned long padding_row, unsigned long padding_col,
             unsigned long stride_row, unsigned long stride_col,
@@ -1542,7 +1542,6 @@ namespace ceras
         ) noexcept
         {
             typedef typename Tsor::value_type value_type;
-            std::vector<std::uint32_t>& index_record = *s_index_record; //32 bit should be enough for memory address offeset
 
             std::vector<unsigned long> input_shape = input_img.shape();
             better_assert( input_shape.size() == 4, "Expecting a 4D tensor." );
@@ -1555,8 +1554,9 @@ namespace ceras
 
             output_col_mat.resize( {output_column_matrix_row, output_column_matrix_col} );
 
-            if ( index_record.size() != output_column_matrix_row * output_column_matrix_col ) // first-run?
+            if ( index_shape != input_shape ) // first-run?
             {
+                index_shape = input_shape;
                 index_record.resize( output_column_matrix_row * output_column_matrix_col );
 
                 for ( auto bs : range( BS ) )
@@ -1607,13 +1607,12 @@ namespace ceras
             }
         };
 
-        auto img2col_backward = [s_index_record]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad, Tsor& ans ) noexcept
+        auto img2col_backward = []<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad, Tsor& ans, std::vector<std::uint32_t> const& index_record ) noexcept
         {
             typedef typename Tsor::value_type value_type;
             ans.resize( input.shape() );
             std::fill( ans.begin(), ans.end(), value_type{0} );
 
-            std::vector<std::uint32_t>& index_record = *s_index_record; //32 bit should be enough for memory address offeset
             for ( auto idx : range( grad.size() ) )
             {
                 auto const index = index_record[idx];
@@ -1624,6 +1623,8 @@ namespace ceras
 
         return [row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation, img2col_forward, img2col_backward]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::vector<std::uint32_t>> s_index_record = std::make_shared<std::vector<std::uint32_t>>(); // col_img[idx] = img[index_record[idx]]  -- (-1) for zero padding
+            std::shared_ptr<std::vector<unsigned long>> s_index_shape = std::make_shared<std::vector<unsigned long>>();
             std::shared_ptr<std::any> output_cache = std::make_shared<std::any>();
             std::shared_ptr<std::any> back_grad_cache = std::make_shared<std::any>();
             return make_unary_operator
@@ -1631,13 +1632,13 @@ namespace ceras
                 [=]<Tensor Tsor>( Tsor const & tsor ) noexcept
                 {
                     Tsor& output = context_cast<Tsor>( output_cache );
-                    img2col_forward( tsor, output, row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation );
+                    img2col_forward( tsor, output, *s_index_record, *s_index_shape, row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation );
                     return Tsor{output};
                 },
                 [=]<Tensor Tsor>( Tsor const& input, Tsor const& output, Tsor const& grad ) noexcept
                 {
                     Tsor& back_grad = context_cast<Tsor>( back_grad_cache );
-                    img2col_backward( input, output, grad, back_grad );
+                    img2col_backward( input, output, grad, back_grad, *s_index_record );
                     return Tsor{back_grad};
                 },
                 "img2col",
-- 
2.43.0


From 2cc5618a2c61b22fca097b1154ea4dbcf6c6dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 23/45] fix: copies of a variable share the trainable flag and
 the regularizer (applied once per backward pass)

---
 include/optimizer.hpp | 12 +++++-----
 include/variable.hpp  | 56 ++++++++++++++++++++++---------------------
 2 files changed, 35 insertions(+), 33 deletions(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 2c2afa0..31da89e 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -49,7 +49,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -94,7 +94,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -145,7 +145,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -195,7 +195,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -270,7 +270,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -340,7 +340,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto& [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     //v.data() -= learning_rate_ * (v.gradient());
                     //
diff --git a/include/variable.hpp b/include/variable.hpp
index 37d4b55..687ad9e 100644
--- a/include/variable.hpp
+++ b/include/variable.hpp
@@ -23,14 +23,6 @@ namespace ceras
     template< Tensor Tsor >
     ceras_private::session<Tsor>& get_default_session();
 
-    template< Tensor Tsor >
-    struct variable_state
-    {
-        Tsor data_;
-        Tsor gradient_;
-        std::vector<Tsor> contexts_;
-    };
-
     template< typename Float > requires std::floating_point<Float>
     struct regularizer
     {
@@ -42,6 +34,16 @@ namespace ceras
         constexpr regularizer( value_type l1=0.0, value_type l2=0.0, bool synchronized=false ) noexcept : l1_{l1}, l2_{l2}, synchronized_{synchronized} {}
     };
 
+    template< Tensor Tsor >
+    struct variable_state
+    {
+        Tsor data_;
+        Tsor gradient_;
+        std::vector<Tsor> contexts_;
+        regularizer<typename Tsor::value_type> regularizer_;
+        bool trainable_ = true;
+    };
+
     template< Tensor Tsor >
     struct variable : enable_id<variable<Tsor>, "Variable">
     {
@@ -49,13 +51,13 @@ namespace ceras
         typedef typename tensor_type::value_type value_type;
 
         std::shared_ptr<variable_state<tensor_type>> state_;
-        regularizer<value_type> regularizer_;
-        bool trainable_;
 
-        variable( tensor_type const& data, value_type l1=value_type{0}, value_type l2=value_type{0}, bool trainable=true ) : enable_id<variable<tensor_type>, "Variable">{}, regularizer_{l1, l2, true}, trainable_{trainable}
+        variable( tensor_type const& data, value_type l1=value_type{0}, value_type l2=value_type{0}, bool trainable=true ) : enable_id<variable<tensor_type>, "Variable">{}
         {
             (*this).state_ = std::make_shared<variable_state<tensor_type>>();
             (*((*this).state_)).data_ = data;
+            (*((*this).state_)).regularizer_ = regularizer<value_type>{ l1, l2, true };
+            (*((*this).state_)).trainable_ = trainable;
             (*((*this).state_)).gradient_ = tensor_type{ data.shape() };
 
             auto& ss = get_default_session<tensor_type>();
@@ -77,16 +79,16 @@ namespace ceras
             {
                 typedef typename tensor_type::value_type value_type;
                 state.gradient_.reset( value_type{0} );
-                regularizer_.synchronized_ = false; // mark changes
+                state.regularizer_.synchronized_ = false; // mark changes
             }
             return state.data_;
         }
 
         void backward( auto const& grad ) noexcept
         {
-            if (!trainable_) return;
-
             auto& state = *((*this).state_);
+            if (!state.trainable_) return;
+
             {
                 if (state.gradient_.shape() != state.data_.shape())
                     state.gradient_.resize( state.data_.shape() );
@@ -94,20 +96,20 @@ namespace ceras
             state.gradient_ += grad; // collecting all the gradients from its children nodes, will be called mulitple times in a single backward pass
 
             // apply regularizers
-            if (!(regularizer_.synchronized_)) // in case of multiple invoke of this method in a same backward pass
+            if (!(state.regularizer_.synchronized_)) // in case of multiple invoke of this method in a same backward pass
             {
-                if ( regularizer_.l1_ >= eps ) // l1 regularizer
+                if ( state.regularizer_.l1_ >= eps ) // l1 regularizer
                 {
-                    value_type const factor = regularizer_.l1_;
+                    value_type const factor = state.regularizer_.l1_;
                     for_each( state.data_.begin(), state.data_.end(), state.gradient_.begin(), [factor]( value_type d, value_type& g ){ g += (d >= value_type{0}) ? factor : -factor; } );
                 }
-                if ( regularizer_.l2_ >= eps ) // l2 regularizer
+                if ( state.regularizer_.l2_ >= eps ) // l2 regularizer
                 {
-                    value_type const factor = regularizer_.l2_;
+                    value_type const factor = state.regularizer_.l2_;
                     for_each( state.data_.begin(), state.data_.end(), state.gradient_.begin(), [factor]( value_type d, value_type& g ){ g += value_type{2} * d * factor; } );
                 }
 
-                regularizer_.synchronized_ = true;
+                state.regularizer_.synchronized_ = true;
             }
         }
 
@@ -159,29 +161,29 @@ namespace ceras
             gradient().reset();
         }
 
-        bool trainable() const noexcept { return trainable_; }
-        bool& trainable() noexcept { return trainable_; }
+        bool trainable() const noexcept { return (*((*this).state_)).trainable_; }
+        bool& trainable() noexcept { return (*((*this).state_)).trainable_; }
 
-        void trainable( bool t ) { trainable_ = t; }
+        void trainable( bool t ) { (*((*this).state_)).trainable_ = t; }
 
         value_type l1_regularizer() const
         {
-            return regularizer_.l1_;
+            return (*((*this).state_)).regularizer_.l1_;
         }
 
         value_type& l1_regularizer()
         {
-            return regularizer_.l1_;
+            return (*((*this).state_)).regularizer_.l1_;
         }
 
         value_type l2_regularizer() const
         {
-            return regularizer_.l2_;
+            return (*((*this).state_)).regularizer_.l2_;
         }
 
         value_type& l2_regularizer()
         {
-            return regularizer_.l2_;
+            return (*((*this).state_)).regularizer_.l2_;
         }
 
     };//struct variable
-- 
2.43.0


From 89383e43c03b44da6be99608bfbab19e30d83455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:24 +0000
Subject: [PATCH 24/45] fix: model::trainable and model composition use the
 accessors of the operators (they did not compile)

---
 include/model.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/model.hpp b/include/model.hpp
index 7937e5e..42afcc8 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -23,12 +23,12 @@ namespace ceras
         }
         else if constexpr (is_binary_operator_v<Ex>)
         {
-            make_trainable( ex.lhs_op_, t );
-            make_trainable( ex.rhs_op_, t );
+            make_trainable( ex.lhs_op(), t );
+            make_trainable( ex.rhs_op(), t );
         }
         else if constexpr (is_unary_operator_v<Ex>)
         {
-            make_trainable( ex.op_, t );
+            make_trainable( ex.op(), t );
         }
     }
 
@@ -54,13 +54,13 @@ namespace ceras
         }
         else if constexpr (is_unary_operator_v<Ex>)
         {
-            return make_unary_operator( ex.forward_action_, ex.backward_action_, ex.name_, ex.output_shape_calculator_ )( replace_placeholder_with_expression( ex.op_, old_place_holder, new_expression ) );
+            return make_unary_operator( ex.forward_action(), ex.backward_action(), ex.name_, ex.output_shape_calculator() )( replace_placeholder_with_expression( ex.op(), old_place_holder, new_expression ) );
         }
         else if constexpr (is_binary_operator_v<Ex>)
         {
-            return make_binary_operator( ex.forward_action_, ex.backward_action_, ex.name_, ex.output_shape_calculator_ )
-                                       ( replace_placeholder_with_expression( ex.lhs_op_, old_place_holder, new_expression ),
-                                         replace_placeholder_with_expression( ex.rhs_op_, old_place_holder, new_expression ) );
+            return make_binary_operator( ex.forward_action(), ex.backward_action(), ex.name_, ex.output_shape_calculator() )
+                                       ( replace_placeholder_with_expression( ex.lhs_op(), old_place_holder, new_expression ),
+                                         replace_placeholder_with_expression( ex.rhs_op(), old_place_holder, new_expression ) );
         }
         else
         {
-- 
2.43.0


From 77654eee4ae77627253facd819823f4be40d40e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:24 +0000
Subject: [PATCH 25/45] fix: fit trains on training_loops batches, not on one
 batch of the validation split as well

---
 include/model.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/model.hpp b/include/model.hpp
index 42afcc8..4cd991e 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -206,7 +206,7 @@ namespace ceras
                     // forward pass
                     auto error = s.run( loss_ ).as_scalar();
                     // in case of training split, do backpropagation
-                    if ( l <= training_loops )
+                    if ( l < training_loops )
                     {
                         training_error += error;
                         s.run( compiled_optimizer_ );
-- 
2.43.0


From 7b739903fec9bc44eec8b0fd27254661ae0ade15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 26/45] fix: the slice of parallel that runs on the calling
 thread starts at its share of [dim_first, dim_last), not at an offset from
 zero

---
 include/utils/parallel.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utils/parallel.hpp b/include/utils/parallel.hpp
index 5320ffe..2cf4b2d 100644
--- a/include/utils/parallel.hpp
+++ b/include/utils/parallel.hpp
@@ -62,7 +62,8 @@ namespace ceras
                 threads.emplace_back( std::thread{ job_slice, first, last } );
             }
 
-            job_slice( tasks_per_thread*(total_cores-1), dim_last );
+            Integer_Type const first = tasks_per_thread * (total_cores-1) + dim_first;
+            job_slice( std::min( first, dim_last ), dim_last );
 
             for ( auto& th : threads )
                 th.join();
-- 
2.43.0


From b1614781100767e7e44c3129e83523588f43df41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 27/45] fix: memory_cache::gc forgets the blocks it has given
 back

---
 include/utils/cached_allocator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utils/cached_allocator.hpp b/include/utils/cached_allocator.hpp
index d9be9a3..e01bf4f 100644
--- a/include/utils/cached_allocator.hpp
+++ b/include/utils/cached_allocator.hpp
@@ -105,6 +105,7 @@ namespace ceras
                 for ( auto& [size, address] : reserved_memory )
                     alloc.deallocate( address, size );
 
+                reserved_memory.clear();
                 return true;
             }
 
-- 
2.43.0


From e6e178aa3442a3050a2080968272ca1416f9a212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 28/45] fix: vector releases its storage before it takes over
 that of another vector

---
 include/utils/vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/utils/vector.hpp b/include/utils/vector.hpp
index 4cec322..4f4d88b 100644
--- a/include/utils/vector.hpp
+++ b/include/utils/vector.hpp
@@ -33,6 +33,10 @@ namespace ceras
 
         constexpr vector& operator = ( vector && other ) noexcept
         {
+            if ( this == &other )
+                return *this;
+
+            clear();
             size_ = other.size_;
             data_ = other.data_;
             other.size_ = 0;
-- 
2.43.0


From 78e2b3a4de6e8e037afc66160cc9ab4ca863abdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 29/45] fix: buffered_allocator allocates the number of
 elements it deallocates

---
 include/utils/buffered_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/buffered_allocator.hpp b/include/utils/buffered_allocator.hpp
index 1ea9200..1faf9f2 100644
--- a/include/utils/buffered_allocator.hpp
+++ b/include/utils/buffered_allocator.hpp
@@ -43,7 +43,7 @@ namespace ceras
             else // default heap allocation
             {
                 std::allocator<T> a;
-                return a.allocate( bytes );
+                return a.allocate( n );
             }
         }
 
-- 
2.43.0


From 3de45a79f84e4a165f021cfdf246a4c388957123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 30/45] fix: operator > of place holders is the reverse of
 operator <

---
 include/place_holder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/place_holder.hpp b/include/place_holder.hpp
index 4c8eb06..0c6b4b9 100644
--- a/include/place_holder.hpp
+++ b/include/place_holder.hpp
@@ -118,7 +118,7 @@ namespace ceras
     template< Place_Holder Ph >
     bool operator > ( Ph const& lhs, Ph const& rhs )
     {
-        return lhs.id() < rhs.id();
+        return lhs.id() > rhs.id();
     }
 
     template< Place_Holder Ph >
-- 
2.43.0


From 7848397ae2bd87bbf9d1d5248523be71440b59ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 31/45] fix: an expression minus a complex expression is a
 difference, and an expression times a complex expression keeps the order of
 the factors

---
 include/complex_operator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/complex_operator.hpp b/include/complex_operator.hpp
index b0c959d..0a3085f 100644
--- a/include/complex_operator.hpp
+++ b/include/complex_operator.hpp
@@ -248,7 +248,7 @@ namespace ceras
     template< Complex C, Expression E >
     auto operator - ( E const& e, C const& c ) noexcept
     {
-        return c + e;
+        return complex{ e-real(c), negative(imag(c)) };
     }
 
     ///
@@ -266,7 +266,7 @@ namespace ceras
     template< Complex C, Expression E >
     auto operator * ( E const& e, C const& c ) noexcept
     {
-        return c * e;
+        return complex{ e*real(c), e*imag(c) };
     }
 
 
-- 
2.43.0


From 11bcd6b165ea46e8a4f6f6359c482b3f5d29c04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 32/45] fix: the nesterov flag of sgd selects the nesterov
 update

---
 include/optimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 31da89e..4145634 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -58,7 +58,7 @@ namespace ceras
                         contexts.push_back( zeros_like( data ) );
                     auto& moments = contexts[0];
                     for_each( moments.begin(), moments.end(), gradient.begin(), [this]( T& m, T g ) { m *= (*this).momentum_; m -= (*this).learning_rate_ * g;} );
-                    if (!nesterov_ ) for_each( moments.begin(), moments.end(), data.begin(), gradient.begin(), [this]( T m, T& v, T g ) { v += (*this).momentum_ * m - (*this).learning_rate_ * g; } );
+                    if ( nesterov_ ) for_each( moments.begin(), moments.end(), data.begin(), gradient.begin(), [this]( T m, T& v, T g ) { v += (*this).momentum_ * m - (*this).learning_rate_ * g; } );
                     else data += moments;
 
                     gradient.reset(); // clear variable gradient
-- 
2.43.0


From ffc5a7089971c8f499ad6aae705306fe1f963a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 33/45] fix: adadelta accumulates the updates in a context of
 their own

---
 include/optimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 4145634..d6cfc69 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -208,7 +208,7 @@ namespace ceras
                         contexts.push_back( zeros_like( data ) );
                     }
                     auto& moments = contexts[0];
-                    auto& delta = contexts[0];
+                    auto& delta = contexts[1];
 
                     /*
                     if (iterations_==0)
-- 
2.43.0


From 8b83b8a269aa01454d8953d8baa8a871dd619caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 34/45] fix: zero_padding_2d clears the border of the reused
 output

---
 include/operation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index c4be91b..e20ab33 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2760,6 +2760,7 @@ namespace ceras
                         // 4D view of output tensor
                         Tsor& ans = context_cast<Tsor>( forward_cache );
                         ans.resize( {batch_size, top+row+bottom, left+col+right, channel} );
+                        std::fill( ans.begin(), ans.end(), value_type{0} );
                         view_4d<value_type> ta{ ans.data(), batch_size, top+row+bottom, left+col+right, channel };
 
                         for ( auto bs : range( batch_size ) )
-- 
2.43.0


From df6a528e5096df059932bf75521a50541e405dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 35/45] fix: max_pooling_2d forgets the maxima and the gradient
 of the previous evaluation

---
 include/operation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index e20ab33..7924a2b 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1968,7 +1968,7 @@ namespace ceras
 
                         Tsor& mask__ = context_cast<Tsor>( mask );
                         mask__.resize( input.shape() );
-
+                        std::fill( mask__.begin(), mask__.end(), value_type{0} );
 
                         std::vector<unsigned long> shape = input.shape();
                         auto const[batch_size, row, col, channel] = std::make_tuple(shape[0], shape[1], shape[2], shape[3]);
@@ -2020,6 +2020,7 @@ namespace ceras
 
                         Tsor& ans = context_cast<Tsor>( backward_cache );
                         ans.resize( input.shape() );
+                        std::fill( ans.begin(), ans.end(), value_type{0} );
 
                         view_4d<value_type> ta{ ans.data(), batch_size, row, col, channel };
 
-- 
2.43.0


From 1bf7ccf8bb91d3226f9abbcaebd2862533cec67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 36/45] fix: the gradient of average_pooling_2d is zero for the
 rows and columns outside every window

---
 include/operation.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 7924a2b..b125ac9 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2112,6 +2112,7 @@ namespace ceras
 
                     Tsor& ans = context_cast<Tsor>( backward_cache );
                     ans.resize( input.shape() );
+                    std::fill( ans.begin(), ans.end(), value_type{0} );
 
                     view_4d<value_type> ta{ ans.data(), batch_size, row, col, channel };
 
@@ -2120,8 +2121,8 @@ namespace ceras
 
                     value_type const factor = value_type{1} / static_cast<value_type>(stride*stride);
                     for ( auto bs : range( batch_size ) )
-                        for ( auto r : range( row ) )
-                            for ( auto c : range( col ) )
+                        for ( auto r : range( (row/stride)*stride ) ) // the rest is not covered by any window
+                            for ( auto c : range( (col/stride)*stride ) )
                                 for ( auto ch : range( channel ) )
                                     ta[bs][r][c][ch] = factor * tg[bs][r/stride][c/stride][ch];
                     return ans;
-- 
2.43.0


From 8b8f05f20f64e208385677eb0dfe3ce65536c151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 37/45] fix: the rows of img2col follow the layout of the
 filter, [r, c, CH], so that conv2d pairs the right cells

---
 include/operation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index b125ac9..cf29843 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1565,9 +1565,9 @@ namespace ceras
                     std::int64_t const im_offset = bs * R * C * CH;
                     for ( auto c : range( CH * kernel_row * kernel_col ) )
                     {
-                        std::int64_t const w_offset = c % kernel_col;
-                        std::int64_t const h_offset = ( c / kernel_col ) % kernel_row;
-                        std::int64_t const c_im = c / ( kernel_col * kernel_row );
+                        std::int64_t const c_im = c % CH;
+                        std::int64_t const w_offset = ( c / CH ) % kernel_col;
+                        std::int64_t const h_offset = c / ( CH * kernel_col );
 
                         for ( auto h : range( output_row ) )
                         {
-- 
2.43.0


From 11fb5d12a581f2e73b0915c65c69ca73022d180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 38/45] fix: the number of output columns of conv2d depends on
 the column padding

---
 include/operation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index cf29843..416e441 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1691,7 +1691,7 @@ namespace ceras
             }
 
             unsigned long const row_output = ( row_input + 2 * row_padding - ( row_dilation * (row_kernel - 1) + 1 ) ) / row_stride + 1;
-            unsigned long const col_output = ( col_input + 2 * row_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
+            unsigned long const col_output = ( col_input + 2 * col_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
 
             auto lhs_ex_as_col = img2col(row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation)( lhs_ex ); // [BS, R, C, CH] ==> [r*c*CH, BS*new_row*new_col]
 
@@ -1744,7 +1744,7 @@ namespace ceras
             }
 
             unsigned long const row_output = ( row_input + 2 * row_padding - ( row_dilation * (row_kernel - 1) + 1 ) ) / row_stride + 1;
-            unsigned long const col_output = ( col_input + 2 * row_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
+            unsigned long const col_output = ( col_input + 2 * col_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
 
             auto lhs_ex_as_col = img2col(row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation)( lhs_ex ); // [BS, R, C, CH] ==> [r*c*CH, BS*new_row*new_col]
 
-- 
2.43.0


From 8170020a52224904a892987a2a47252c73f2082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 39/45] fix: drop_out draws a new mask for every training pass
 and scales the gradient as it scales the value

---
 include/operation.hpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 416e441..96a1ae9 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1899,20 +1899,14 @@ namespace ceras
                     if ( learning_phase == 0 ) // defined in 'config.hpp'
                         return input;
 
-                    std::any& mask_ = *mask;
-                    // first run, initialize mask
-                    if ( !mask_.has_value() )
+                    Tsor& mask__ = context_cast<Tsor>( mask );
+                    mask__.resize( input.shape() );
                     {
                         Tsor const random_tensor = random<value_type>( input.shape() );
-                        Tsor mask__{ input.shape() };
                         for ( auto idx : range( input.size() ) )
-                            if ( random_tensor[ idx ] > factor )
-                                mask__[ idx ] = 1;
-                        mask_ = mask__; // initialize
+                            mask__[ idx ] = ( random_tensor[ idx ] > factor ) ? value_type{1} : value_type{0};
                     }
 
-                    Tsor& mask__ = std::any_cast<Tsor&>( mask_ );
-
                     Tsor& ans = context_cast<Tsor>( forward_cache );
                     ans.deep_copy( input );
 
@@ -1920,8 +1914,10 @@ namespace ceras
                         ans[idx] *= mask__[idx] / (value_type{1} - factor);
                     return ans;
                 },
-                [mask, backward_cache]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
+                [factor, mask, backward_cache]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
                 {
+                    typedef typename Tsor::value_type value_type;
+
                     if ( learning_phase == 0 ) // defined in 'config.hpp'
                         return grad;
 
@@ -1931,7 +1927,7 @@ namespace ceras
                     ans.deep_copy( grad );
 
                     for ( auto idx : range( grad.size() ) )
-                        ans[idx] *= mask__[idx];
+                        ans[idx] *= mask__[idx] / (value_type{1} - factor);
                     return ans;
                 },
                 "dropout",
-- 
2.43.0


From 7f943003551ee9cba8405a6f025c3d06020985ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:27 +0000
Subject: [PATCH 40/45] fix: the gradient of normalization_batch includes the
 dependence of the average and the variance on the input, and its cache
 follows the batch size

---
 include/operation.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 96a1ae9..842a1c6 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2341,18 +2341,33 @@ namespace ceras
                 [=]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                 {
                     typedef typename Tsor::value_type value_type;
+                    Tsor& average = context_extract<Tsor>( average_cache );
                     Tsor& variance = context_extract<Tsor>( variance_cache );
 
                     std::vector<unsigned long> const& shape = input.shape();
                     unsigned long const channels = *(shape.rbegin());
                     unsigned long const rest_dims = input.size() / channels;
 
-                    Tsor& ans = context_cast<Tsor>( backward_cache, zeros_like( input ) );
+                    Tsor& ans = context_cast<Tsor>( backward_cache );
+                    ans.resize( input.shape() );
                     view_2d<value_type> ans_{ans.data(), rest_dims, channels };
+                    view_2d<value_type> input_{input.data(), rest_dims, channels };
                     view_2d<value_type> grad_{grad.data(), rest_dims, channels };
-                    for ( auto r : range( rest_dims ) )
-                        for ( auto c : range( channels ) )
-                            ans_[r][c] = grad_[r][c] / std::sqrt( variance[c] + eps );
+                    for ( auto c : range( channels ) )
+                    {
+                        value_type grad_mean = 0; // average of the gradient
+                        value_type grad_corr = 0; // average of the gradient times the centred input
+                        for ( auto r : range( rest_dims ) )
+                        {
+                            grad_mean += grad_[r][c];
+                            grad_corr += grad_[r][c] * ( input_[r][c] - average[c] );
+                        }
+                        grad_mean /= static_cast<value_type>( rest_dims );
+                        grad_corr /= static_cast<value_type>( rest_dims );
+
+                        for ( auto r : range( rest_dims ) )
+                            ans_[r][c] = ( grad_[r][c] - grad_mean - ( input_[r][c] - average[c] ) * grad_corr / ( variance[c] + eps ) ) / std::sqrt( variance[c] + eps );
+                    }
                     return ans;
                 },
                 "normalization_batch",
-- 
2.43.0


From 4187a1e848475415c9eae5fe259ec7e3c109f6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:27 +0000
Subject: [PATCH 41/45] fix: normalization_batch updates its statistics after a
 prediction that came before the training

---
 include/operation.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 842a1c6..49e6302 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2265,8 +2265,7 @@ namespace ceras
                     if ( learning_phase == 0 ) // defined in 'config.hpp'
                     {
                         // fix for the special case when prediction is executed before the training, typically in a GAN
-                        Tsor& global_average_test = context_cast<Tsor>( global_average_cache );
-                        if ( global_average_test.empty() )
+                        if ( !(*global_average_cache).has_value() )
                             return input;
 
                         // normal case. i.e., the global_average_cache and global_variance_cache are not empty
-- 
2.43.0


From c58e8bf682277c87c80650b7641ee461ff52115b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:27 +0000
Subject: [PATCH 42/45] fix: run, session::tap and reset of a tensor compile

---
 include/session.hpp | 4 ++--
 include/tensor.tcc  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/session.hpp b/include/session.hpp
index 3f8c609..d524cbe 100644
--- a/include/session.hpp
+++ b/include/session.hpp
@@ -65,7 +65,7 @@ namespace ceras
         // register variables associated to the op to this session
         // usually being called before restoring a session from a file
         template< typename Operation >
-        void tap( Operation& op ) const
+        void tap( Operation& op )
         {
             run( op );
         }
@@ -234,7 +234,7 @@ namespace ceras
     auto run( Operation& op )
     {
         typedef typename Operation::tensor_type tensor_type;
-        auto ss = get_default_session<tensor_type>();
+        auto& ss = get_default_session<tensor_type>();
         return ss.run( op );
     }
 
diff --git a/include/tensor.tcc b/include/tensor.tcc
index 5373031..6f1a382 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -181,7 +181,7 @@ namespace ceras
     /// @brief Reset all emements in the tensor
     ///
     template< Tensor Tsor >
-    constexpr unsigned long reset( Tsor& tsor, typename Tsor::value_type val=0 ) noexcept
+    constexpr Tsor& reset( Tsor& tsor, typename Tsor::value_type val=0 ) noexcept
     {
         return tsor.reset( val );
     }
-- 
2.43.0


From b2525a10285972df6a5ec74e50751c599c0acdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:27 +0000
Subject: [PATCH 43/45] fix: saving and loading a tensor or a session gives
 back the same values

---
 include/session.hpp | 2 ++
 include/tensor.tcc  | 8 ++------
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/session.hpp b/include/session.hpp
index d524cbe..0aaf055 100644
--- a/include/session.hpp
+++ b/include/session.hpp
@@ -123,6 +123,8 @@ namespace ceras
         {
             std::ofstream ofs{ file_path };
             better_assert( ofs.good(), "failed to open file ", file_path );
+            if constexpr ( std::is_floating_point_v<typename tensor_type::value_type> )
+                ofs.precision( std::numeric_limits<typename tensor_type::value_type>::max_digits10 );
 
             // save id
             for ( auto const& [id, v] : variables_ )
diff --git a/include/tensor.tcc b/include/tensor.tcc
index 6f1a382..74da25d 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1295,12 +1295,8 @@ namespace ceras
     {
         std::ofstream ofs{ file_name };
         typedef typename Tsor::value_type value_type;
-        if constexpr (std::is_same_v<value_type, float> )
-            ofs.precision( 8 );
-        else if constexpr (std::is_same_v<value_type, double> )
-            ofs.precision( 15 );
-        else if constexpr (std::is_same_v<value_type, long double> )
-            ofs.precision( 25 );
+        if constexpr (std::is_floating_point_v<value_type> )
+            ofs.precision( std::numeric_limits<value_type>::max_digits10 );
 
         write_tensor( ofs, tsor );
         ofs.close();
-- 
2.43.0


From 431e5f88c8c8f70a5a8bdc196885ba33beb006b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:27 +0000
Subject: [PATCH 44/45] fix: the result of a session run is not overwritten by
 the next run

---
 include/session.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/session.hpp b/include/session.hpp
index 0aaf055..cf7ddcf 100644
--- a/include/session.hpp
+++ b/include/session.hpp
@@ -59,7 +59,10 @@ namespace ceras
         auto run( Operation& op )
         {
             clear_forward_cache();
-            return op.forward();
+            if constexpr ( Tensor<std::remove_cvref_t<decltype(op.forward())>> )
+                return op.forward().deep_copy(); // operators reuse their output cache
+            else
+                return op.forward();
         }
 
         // register variables associated to the op to this session
-- 
2.43.0


From 3b78ab43e212e2ef273273aca273d2a066749087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:52 +0000
Subject: [PATCH 45/45] fix: fit did not finish on a terminal narrower than 40
 columns, or with an arbitrary bar without a terminal

---
 include/utils/tqdm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/tqdm.hpp b/include/utils/tqdm.hpp
index 00ab065..770eaa7 100644
--- a/include/utils/tqdm.hpp
+++ b/include/utils/tqdm.hpp
@@ -43,7 +43,7 @@ namespace dm_details
         }
         else
         {
-            winsize w;
+            winsize w{}; // stays zero when stdin is not a terminal
             ioctl(0, 0x5413, &w); // 0x5413 is translated from macro 'TIOCGWINSZ'
             return w.ws_col;
         }
@@ -194,7 +194,7 @@ namespace tq
         std::ostream* os_{&std::cerr};
 
         //index bar_size_{100};
-        index bar_size_{ dm_details::get_terminal_width()-40 };
+        index bar_size_{ std::max( dm_details::get_terminal_width()-40, 0 ) };
         //index bar_size_{ dm_details::get_terminal_width() };
         index term_cols_{1};
 
-- 
2.43.0

