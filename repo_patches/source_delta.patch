From cfe393017daf3dacaacb9856949eaf1c0dd7bafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:06 +0000
Subject: [PATCH 01/85] fix: tensor addition and subtraction must not update
 their left operand

broadcast_tensor returns a shallow copy when no broadcasting is required, so
add()/minus() accumulated into the storage of the lhs argument.
---
 include/tensor.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 8f8e552..0b369d6 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -578,7 +578,7 @@ namespace ceras
     Tsor add( Tsor const& lhs, Tsor const& rhs ) noexcept
     {
         auto const& broadcasted_shape = broadcast_shape( lhs.shape(), rhs.shape() );
-        auto llhs = broadcast_tensor( lhs, broadcasted_shape );
+        auto llhs = broadcast_tensor( lhs, broadcasted_shape ).deep_copy(); // tensors are shallow copied, the operand should not be updated
         auto const& rrhs = broadcast_tensor( rhs, broadcasted_shape );
 
         for_each( llhs.begin(), llhs.end(), rrhs.begin(), []( auto& x, auto const& y ) noexcept { x += y; } );
@@ -609,7 +609,7 @@ namespace ceras
     Tsor minus( Tsor const& lhs, Tsor const& rhs ) noexcept
     {
         auto const& broadcasted_shape = broadcast_shape( lhs.shape(), rhs.shape() );
-        auto llhs = broadcast_tensor( lhs, broadcasted_shape );
+        auto llhs = broadcast_tensor( lhs, broadcasted_shape ).deep_copy(); // tensors are shallow copied, the operand should not be updated
         auto const& rrhs = broadcast_tensor( rhs, broadcasted_shape );
 
         for_each( llhs.begin(), llhs.end(), rrhs.begin(), []( auto& x, auto const& y ) noexcept { x -= y; } );
-- 
2.43.0


From 3422089b5e5df4fd50c2a394f7ca4e63604df278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 02/85] fix: multiply a matrix by a 1-D tensor as a column
 vector

the column was given the size of the left operand, which also resized the
storage shared with the right operand.
---
 include/tensor.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 0b369d6..7e9a757 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -675,7 +675,7 @@ namespace ceras
             return multiply( reshape( lhs, {1UL, lhs.size()} ), rhs, ans );
 
         if ( 1 == rhs.ndim() )
-            return multiply( lhs, reshape( rhs, {lhs.size(), 1UL} ), ans );
+            return multiply( lhs, reshape( rhs, {rhs.size(), 1UL} ), ans );
 
         better_assert( 2 == rhs.ndim(), "expecting rhs tensor has 2 dimensions, but got ", rhs.ndim() );
 
-- 
2.43.0


From 4168f5eecf122b6b425fca6e3c0b9c0bd13df0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 03/85] fix: forget released blocks after garbage collection

gc() returned the reserved blocks to the system but kept them listed, so the
next allocation of the same size handed out freed memory.
---
 include/utils/cached_allocator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utils/cached_allocator.hpp b/include/utils/cached_allocator.hpp
index d9be9a3..3ba86ec 100644
--- a/include/utils/cached_allocator.hpp
+++ b/include/utils/cached_allocator.hpp
@@ -104,6 +104,7 @@ namespace ceras
                 std::allocator<std::byte> alloc;
                 for ( auto& [size, address] : reserved_memory )
                     alloc.deallocate( address, size );
+                reserved_memory.clear();
 
                 return true;
             }
-- 
2.43.0


From 0e93a8b9a307f1b4c4c19762d8f7df803fd71f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 04/85] fix: repeat and concatenate must not mix iterators of
 different temporaries

---
 include/tensor.tcc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 7e9a757..2a61af4 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -757,7 +757,8 @@ namespace ceras
 
             std::vector<unsigned long>  new_shape;
             new_shape.push_back( n );
-            std::copy( tsor.shape().begin(), tsor.shape().end(), std::back_inserter( new_shape ) );
+            auto const& old_shape = tsor.shape();
+            std::copy( old_shape.begin(), old_shape.end(), std::back_inserter( new_shape ) );
             ans.reshape( new_shape );
         }
 
@@ -920,10 +921,12 @@ namespace ceras
         // axis alignment
         if ( lhs.ndim() > rhs.ndim() )
         {
-            unsigned long const dims_to_repeat = std::accumulate( lhs.shape().begin(), lhs.shape().begin()+lhs.ndim()-rhs.ndim(), 1UL, [](auto x, auto y ){ return x*y; } );
+            auto const& lhs_shape = lhs.shape();
+            auto const& rhs_shape = rhs.shape();
+            unsigned long const dims_to_repeat = std::accumulate( lhs_shape.begin(), lhs_shape.begin()+lhs.ndim()-rhs.ndim(), 1UL, [](auto x, auto y ){ return x*y; } );
             auto new_rhs = repeat( rhs, dims_to_repeat );
-            std::vector<unsigned long> new_shape{ lhs.shape().begin(), lhs.shape().begin()+lhs.ndim()-rhs.ndim() };
-            std::copy( rhs.shape().begin(), rhs.shape().end(), std::back_inserter( new_shape ) );
+            std::vector<unsigned long> new_shape{ lhs_shape.begin(), lhs_shape.begin()+lhs.ndim()-rhs.ndim() };
+            std::copy( rhs_shape.begin(), rhs_shape.end(), std::back_inserter( new_shape ) );
             new_rhs.reshape( new_shape );
             return concatenate( lhs, new_rhs, axis );
         }
-- 
2.43.0


From 47efd78d0a251ce6b37847465105cf0a30ec64b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 05/85] fix: tensor max of negative values

---
 include/tensor.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 2a61af4..7062103 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1008,7 +1008,7 @@ namespace ceras
         typedef typename Tsor::value_type value_type;
         better_assert( tsor.size() != 0, "tensor::max error: input tensor should not be empty!" );
         if ( tsor.size() == 0 ) return value_type{0};
-        value_type ans = std::numeric_limits<value_type>::min();
+        value_type ans = std::numeric_limits<value_type>::lowest();
         for ( auto idx : range( tsor.size() ) )
             ans = std::max( tsor[idx], ans );
         return ans;
@@ -1190,7 +1190,7 @@ namespace ceras
     template <Tensor Tsor>
     Tsor max( Tsor const& ts, unsigned long axis, bool keepdims=false ) noexcept
     {
-        return reduce( ts, axis, std::numeric_limits<typename Tsor::value_type>::min(), []( auto const& a, auto const& b ){ return a > b ? a : b; }, keepdims );
+        return reduce( ts, axis, std::numeric_limits<typename Tsor::value_type>::lowest(), []( auto const& a, auto const& b ){ return a > b ? a : b; }, keepdims );
     }
 
     template <Tensor Tsor>
-- 
2.43.0


From 7b39d9f3193e55ece3fb996cb87008ac1fbd80b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 06/85] fix: reshape a one-element tensor to zero dimensions

---
 include/tensor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor.hpp b/include/tensor.hpp
index 305226a..140c461 100644
--- a/include/tensor.hpp
+++ b/include/tensor.hpp
@@ -354,7 +354,7 @@ namespace ceras
         constexpr self_type& reshape( std::vector<unsigned long> const& new_shape )
         {
             std::vector<unsigned long> _new_shape = new_shape;
-            if ( *(_new_shape.rbegin()) == static_cast<unsigned long>( -1 ) )
+            if ( (!_new_shape.empty()) && *(_new_shape.rbegin()) == static_cast<unsigned long>( -1 ) )
                 *(_new_shape.rbegin()) = (*this).size() / std::accumulate( _new_shape.begin(), _new_shape.end()-1, 1Ul, []( unsigned long x, unsigned long y ){ return x*y; } );
 
             unsigned long const new_size = std::accumulate( _new_shape.begin(), _new_shape.end(), 1UL, [](auto x, auto y){ return x*y; } );
-- 
2.43.0


From aac98a2fae08ba37d3d8c0ae15436bde7205e64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 07/85] fix: a code cut short by the end of the stream is not
 the end-of-file code

---
 include/utils/lzw.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/lzw.hpp b/include/utils/lzw.hpp
index 4bb0607..52f420b 100644
--- a/include/utils/lzw.hpp
+++ b/include/utils/lzw.hpp
@@ -376,7 +376,7 @@ namespace lzw
                         break;
                     }
 
-                if (k == static_cast<CodeType>(MetaCode::Eof))
+                if (is.good() && k == static_cast<CodeType>(MetaCode::Eof))
                 {
                     feofmc = true;
                     return false;
-- 
2.43.0


From 0fbc5f6f54513ae2d87decf2b3125f271ace0a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 08/85] fix: save a session without losing digits

---
 include/session.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/session.hpp b/include/session.hpp
index 3f8c609..812a06f 100644
--- a/include/session.hpp
+++ b/include/session.hpp
@@ -124,6 +124,9 @@ namespace ceras
             std::ofstream ofs{ file_path };
             better_assert( ofs.good(), "failed to open file ", file_path );
 
+            // enough digits to restore exactly the same values
+            ofs.precision( std::numeric_limits<typename tensor_type::value_type>::max_digits10 );
+
             // save id
             for ( auto const& [id, v] : variables_ )
             {
-- 
2.43.0


From 4cd5d6e4f8aa7f4d33736193886703e6c2698404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 09/85] fix: a sub-expression occurring several times lost its
 forward data

Every copy of an expression kept its own input and output, while the forward
result is cached by id: copies served from the cache never saw their input and
could not be differentiated. Keep the forward data in the shared state.
---
 include/operation.hpp | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 4734758..4f5dd4d 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -55,6 +55,8 @@ namespace ceras
         enable_id<unary_operator<Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer>, "Unary_Operator">,
         enable_unary_serializer<unary_operator<Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer> >
     {
+        typedef decltype( std::declval<Forward_Action>()( std::declval<Operator>().forward() ) ) tensor_type;
+
         struct unary_operator_state
         {
             Operator op_;
@@ -62,19 +64,18 @@ namespace ceras
             Backward_Action backward_action_;
             Output_Shape_Calculator output_shape_calculator_;
             Serializer serializer_;
+            tensor_type input_data_; // shared by all copies of this expression, as the forward result is cached by id
+            tensor_type output_data_;
         };
         std::shared_ptr<unary_operator_state> state_;
 
-        typedef decltype( std::declval<Forward_Action>()( std::declval<Operator>().forward() ) ) tensor_type;
-
-        tensor_type input_data_;
-        tensor_type output_data_;
-
         unary_operator( Operator const& op, Forward_Action const& forward_action, Backward_Action const& backward_action, Output_Shape_Calculator const& output_shape_calculator, Serializer const& serializer ) noexcept : state_{ std::make_shared<unary_operator_state>( op, forward_action, backward_action, output_shape_calculator, serializer ) } {}
 
         auto forward()
         {
             auto& sess = get_default_session<tensor_type>();
+            auto& input_data_ = state_->input_data_;
+            auto& output_data_ = state_->output_data_;
             output_data_= sess.query_forward_cache( (*this).id() );
 
             if ( output_data_.empty() )
@@ -89,7 +90,7 @@ namespace ceras
 
         void backward( tensor_type const& grad )
         {
-            auto const& current_gradient = backward_action()( input_data_, output_data_, grad );
+            auto const& current_gradient = backward_action()( state_->input_data_, state_->output_data_, grad );
             op().backward( current_gradient );
         }
 
@@ -106,8 +107,8 @@ namespace ceras
         Backward_Action const& backward_action() const { return state_->backward_action_; }
         Output_Shape_Calculator const& output_shape_calculator() const { return state_->output_shape_calculator_; }
         Serializer const& serializer() const { return state_->serializer_; }
-        tensor_type output_data() { return output_data_; }
-        tensor_type input_data() { return input_data_; }
+        tensor_type output_data() { return state_->output_data_; }
+        tensor_type input_data() { return state_->input_data_; }
 
         Operator& op() { return state_->op_; }
         Forward_Action& forward_action() { return state_->forward_action_; }
@@ -145,6 +146,8 @@ namespace ceras
         enable_id<binary_operator<Lhs_Operator, Rhs_Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer>, "Binary Operator">,
         enable_binary_serializer<binary_operator<Lhs_Operator, Rhs_Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer>>
     {
+        typedef typename tensor_deduction<Lhs_Operator, Rhs_Operator>::tensor_type tensor_type; // defined in value.hpp
+
         struct binary_operator_state
         {
             Lhs_Operator lhs_op_;
@@ -153,21 +156,21 @@ namespace ceras
             Backward_Action backward_action_;
             Output_Shape_Calculator output_shape_calculator_;
             Serializer serializer_;
+            tensor_type lhs_input_data_; // shared by all copies of this expression, as the forward result is cached by id
+            tensor_type rhs_input_data_;
+            tensor_type output_data_;
         };
         std::shared_ptr<binary_operator_state> state_;
 
-        typedef typename tensor_deduction<Lhs_Operator, Rhs_Operator>::tensor_type tensor_type; // defined in value.hpp
-
-        tensor_type lhs_input_data_;
-        tensor_type rhs_input_data_;
-        tensor_type output_data_;
-
         binary_operator( Lhs_Operator const& lhs_op, Rhs_Operator const& rhs_op, Forward_Action const& forward_action, Backward_Action const& backward_action, Output_Shape_Calculator const& output_shape_calculator, Serializer const& serializer) noexcept :
             state_{ std::make_shared<binary_operator_state>(lhs_op, rhs_op, forward_action, backward_action, output_shape_calculator, serializer) } {}
 
         auto forward()
         {
             auto& sess = get_default_session<tensor_type>();
+            auto& lhs_input_data_ = state_->lhs_input_data_;
+            auto& rhs_input_data_ = state_->rhs_input_data_;
+            auto& output_data_ = state_->output_data_;
             output_data_= sess.query_forward_cache( (*this).id() );
 
             if ( !output_data_.empty() )
@@ -201,7 +204,7 @@ namespace ceras
         ///
         void backward( tensor_type const& grad )
         {
-            auto const& [current_gradient_lhs, current_gradient_rhs] = backward_action()( lhs_input_data_, rhs_input_data_, output_data_, grad );
+            auto const& [current_gradient_lhs, current_gradient_rhs] = backward_action()( state_->lhs_input_data_, state_->rhs_input_data_, state_->output_data_, grad );
             lhs_op().backward( current_gradient_lhs );
             rhs_op().backward( current_gradient_rhs );
         }
@@ -234,9 +237,9 @@ namespace ceras
         Output_Shape_Calculator& output_shape_calculator() { return state_->output_shape_calculator_; }
         Serializer& serializer() { return state_->serializer_; }
 
-        tensor_type output_data() { return output_data_; }
-        tensor_type lhs_input_data() { return lhs_input_data_; }
-        tensor_type rhs_input_data() { return rhs_input_data_; }
+        tensor_type output_data() { return state_->output_data_; }
+        tensor_type lhs_input_data() { return state_->lhs_input_data_; }
+        tensor_type rhs_input_data() { return state_->rhs_input_data_; }
     }; // struct binary_operator
 
     template< typename Forward_Action, typename Backward_Action, typename Output_Shape_Calculator= identity_output_shape_calculator, typename Serializer = default_binary_expression_serializer >
-- 
2.43.0


From 88288776fc6f83b3c1e44cd13d80298120232f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 10/85] fix: leaky_relu and elu did not compile when used

---
 include/activation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index c10ae63..c9f0229 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -419,7 +419,8 @@ namespace ceras
                                             return ans;
                                         },
                                         "leaky_relu",
-                                        make_argumented_unary_operator_serializer( factor )
+                                        identity_output_shape_calculator{},
+                                        make_argumented_operator_serializer( factor )
                     )( ex );
         };
     }
@@ -473,7 +474,8 @@ namespace ceras
                                             return ans;
                                         },
                                         "elu",
-                                        make_argumented_unary_operator_serializer( alpha )
+                                        identity_output_shape_calculator{},
+                                        make_argumented_operator_serializer( alpha )
                     )( ex );
         };
     }
-- 
2.43.0


From b10c61a5acd10b42d063cd663e507c38cc96eb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 11/85] fix: pow( expression, exponent ) and scalar /
 expression did not compile when used

---
 include/operation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 4f5dd4d..392abc9 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -795,7 +795,7 @@ namespace ceras
     template< Expression Ex, arithmetic A >
     auto constexpr operator / ( A const& lhs_val, Ex const& ex ) noexcept
     {
-        return ex * inverse( lhs_val );
+        return inverse( ex ) * lhs_val;
     }
 
 
@@ -4923,6 +4923,7 @@ namespace ceras
                                         return ans;
                                     },
                                     "pow",
+                                    identity_output_shape_calculator{},
                                     [exponent]<Expression Self_Expression, Expression Input_Expression>( Self_Expression const& self_expression, Input_Expression const& input_expression ) noexcept
                                     { // serializer
                                         auto const& [input_expression_name, input_expression_code] = serialize( input_expression );
-- 
2.43.0


From 604f9e0b8769670d5a3a3ee1478fe3be00349052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 12/85] fix: expressions built by the same operator maker
 overwrote each other's buffers

repeat, reduce_*, pooling, padding, up-sampling, broadcast, argmax, img2col and
others allocated their buffers when the maker was created, so that all the
expressions made from it shared them. Allocate them per expression.
---
 include/operation.hpp | 150 +++++++++++++++++++++---------------------
 1 file changed, 75 insertions(+), 75 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 392abc9..cd42b05 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -466,11 +466,11 @@ namespace ceras
     ///
     auto inline broadcast( std::vector<unsigned long> const& new_shape ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [new_shape, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [new_shape]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 [new_shape, forward_cache]<Tensor Tsor>( Tsor const& input )noexcept
@@ -1331,11 +1331,11 @@ namespace ceras
     ///
     auto inline argmax( unsigned long axis=0 ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -1532,11 +1532,9 @@ namespace ceras
     {
         if ( col_kernel == (unsigned long)-1 ) col_kernel = row_kernel;
 
-        std::shared_ptr<std::vector<std::uint32_t>> s_index_record = std::make_shared<std::vector<std::uint32_t>>(); // col_img[idx] = img[index_record[idx]]  -- (-1) for zero padding
-
-        auto img2col_forward = [s_index_record]<Tensor Tsor>
+        auto img2col_forward = []<Tensor Tsor>
         (
-            Tsor const& input_img, Tsor& output_col_mat,
+            std::vector<std::uint32_t>& index_record, Tsor const& input_img, Tsor& output_col_mat,
             unsigned long kernel_row, unsigned long kernel_col,
             unsigned long padding_row, unsigned long padding_col,
             unsigned long stride_row, unsigned long stride_col,
@@ -1544,7 +1542,6 @@ namespace ceras
         ) noexcept
         {
             typedef typename Tsor::value_type value_type;
-            std::vector<std::uint32_t>& index_record = *s_index_record; //32 bit should be enough for memory address offeset
 
             std::vector<unsigned long> input_shape = input_img.shape();
             better_assert( input_shape.size() == 4, "Expecting a 4D tensor." );
@@ -1609,13 +1606,12 @@ namespace ceras
             }
         };
 
-        auto img2col_backward = [s_index_record]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad, Tsor& ans ) noexcept
+        auto img2col_backward = []<Tensor Tsor>( std::vector<std::uint32_t> const& index_record, Tsor const& input, Tsor const&, Tsor const& grad, Tsor& ans ) noexcept
         {
             typedef typename Tsor::value_type value_type;
             ans.resize( input.shape() );
             std::fill( ans.begin(), ans.end(), value_type{0} );
 
-            std::vector<std::uint32_t>& index_record = *s_index_record; //32 bit should be enough for memory address offeset
             for ( auto idx : range( grad.size() ) )
             {
                 auto const index = index_record[idx];
@@ -1624,23 +1620,24 @@ namespace ceras
             }
         };
 
-        std::shared_ptr<std::any> output_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> back_grad_cache = std::make_shared<std::any>();
-
-        return [row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation, img2col_forward, img2col_backward, output_cache, back_grad_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation, img2col_forward, img2col_backward]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::vector<std::uint32_t>> s_index_record = std::make_shared<std::vector<std::uint32_t>>(); // col_img[idx] = img[index_record[idx]]  -- (-1) for zero padding
+            std::shared_ptr<std::any> output_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> back_grad_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const & tsor ) noexcept
                 {
                     Tsor& output = context_cast<Tsor>( output_cache );
-                    img2col_forward( tsor, output, row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation );
+                    img2col_forward( *s_index_record, tsor, output, row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation );
                     return Tsor{output};
                 },
                 [=]<Tensor Tsor>( Tsor const& input, Tsor const& output, Tsor const& grad ) noexcept
                 {
                     Tsor& back_grad = context_cast<Tsor>( back_grad_cache );
-                    img2col_backward( input, output, grad, back_grad );
+                    img2col_backward( *s_index_record, input, output, grad, back_grad );
                     return Tsor{back_grad};
                 },
                 "img2col",
@@ -1772,8 +1769,6 @@ namespace ceras
         std::string const& padding="valid"
     ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
 
         auto shape_calculator = [=]( std::vector<unsigned long> const& old_shape )
         {
@@ -1790,6 +1785,9 @@ namespace ceras
 
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -1888,12 +1886,12 @@ namespace ceras
         better_assert( factor < T{1}, "Expecting drop out rate less than 1, but got factor = ", factor );
         better_assert( factor > T{0}, "Expecting drop out rate greater than 0, but got factor = ", factor );
 
-        std::shared_ptr<std::any> mask = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [factor, mask, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [factor]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> mask = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 [factor, mask, forward_cache]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -2051,12 +2049,12 @@ namespace ceras
     {
         better_assert( stride > 1, "Expecting max_pooling_2d stride greater than 1, but got ", stride );
 
-        std::shared_ptr<std::any> mask = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [stride, mask, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [stride]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> mask = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 max_pooling_2d_context{}.make_forward()( stride, mask, forward_cache ),
@@ -2076,11 +2074,11 @@ namespace ceras
     {
         better_assert( stride > 1, "Expecting average_pooling_2d stride greater than 1, but got ", stride );
 
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [stride, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [stride]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 [stride, forward_cache]<Tensor Tsor>( Tsor const& input ) noexcept // [BS, R, C, CH] --> [BS, R/s, C/s, CH]
@@ -2216,11 +2214,11 @@ namespace ceras
     {
         better_assert( stride > 1, "Expecting up_sampling_pooling_2d stride greater than 1, but got ", stride );
 
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [stride, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [stride]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 up_sampling_2d_context{}.make_forward()( stride, forward_cache ),
@@ -2247,15 +2245,15 @@ namespace ceras
     template< typename T=double > requires std::floating_point<T>
     inline auto normalization_batch( T const momentum=0.98 ) noexcept
     {
-        std::shared_ptr<std::any> global_average_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> global_variance_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> average_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> variance_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> global_average_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> global_variance_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> average_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> variance_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -2848,11 +2846,12 @@ namespace ceras
         better_assert( right >= 1, "Expecting zero_padding_2d right padding no less than 1, but got ", right );
 
         // to avoid re-allocating memory for tensors
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
 
-        return [padding, top, bottom, left, right, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [padding, top, bottom, left, right]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 zero_padding_2d_context{}.make_forward()( top, bottom, left, right, forward_cache ),
@@ -2973,11 +2972,12 @@ namespace ceras
         better_assert( right >= 1, "Expecting cropping_2d right padding no less than 1, but got ", right );
 
         // to avoid re-allocating memory for tensors
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
 
-        return [padding, top, bottom, left, right, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [padding, top, bottom, left, right]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 cropping_2d_context{}.make_forward()( top, bottom, left, right, forward_cache ),
@@ -3090,12 +3090,12 @@ namespace ceras
 
     inline auto sliding_2d( unsigned long pixels ) noexcept
     {
-        std::shared_ptr<std::any> shift_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> shift_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return cropping_2d( {pixels,} )( detailed_sliding_2d(pixels, shift_cache, forward_cache, backward_cache)( zero_padding_2d( {pixels,} )( ex ) )  );
         };
     }
@@ -3189,11 +3189,11 @@ namespace ceras
     {
         better_assert( repeats > 0, "repeat: repeats can not be zero." );
 
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [repeats, axis, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [repeats, axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 repeat_context{}.make_forward()( repeats, axis, forward_cache ),
@@ -3321,12 +3321,12 @@ namespace ceras
     ///
     inline auto reduce_min( unsigned long axis=-1 ) noexcept
     {
-        std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [axis, index_cache, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 reduce_min_context{}.make_forward()( axis, forward_cache, index_cache ),
@@ -3456,12 +3456,12 @@ namespace ceras
     ///
     inline auto reduce_max( unsigned long axis=-1 ) noexcept
     {
-        std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [axis, index_cache, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 reduce_max_context{}.make_forward()( axis, forward_cache, index_cache ),
@@ -3573,11 +3573,11 @@ namespace ceras
     ///
     inline auto reduce_sum( unsigned long axis ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [axis, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
+
             return make_unary_operator
             (
                 reduce_sum_context{}.make_forward()( axis, forward_cache ),
-- 
2.43.0


From 395ad958f1a92acb2c4d3ba2983364786e2703e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 13/85] fix: activations and clip must not update the gradient
 they receive

---
 include/activation.hpp | 16 ++++++++--------
 include/operation.hpp  |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index c9f0229..bda057b 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -108,7 +108,7 @@ namespace ceras
                                     []<Tensor Tsor>( Tsor const&, Tsor const& output, Tsor const& grad ) noexcept
                                     {
                                         better_assert( !has_nan( grad ), "backprop: upcoming gradient for activation softmax contains NaN" );
-                                        Tsor ans = grad;
+                                        Tsor ans = grad.deep_copy();
                                         for_each( ans.begin(), ans.end(), output.begin(), []( auto& a, auto o ) { a *= o * ( typename Tsor::value_type{1} - o ); } );
                                         return ans;
                                     },
@@ -303,7 +303,7 @@ namespace ceras
                     better_assert( output.size(), "relu::backward: empty output." );
                     better_assert( grad.size(), "relu::backward: empty grad." );
                     typedef typename Tsor::value_type value_type;
-                    Tsor ans = grad; // shallow copy
+                    Tsor ans = grad.deep_copy(); // the incoming gradient is shared with other operators
                     //for_each( ans.begin(), ans.end(), input.begin(), []( auto& v, auto x ){ if ( x <= value_type{0} ) v = value_type{0}; } );
                     for_each( ans.begin(), ans.end(), input.begin(), []( auto& v, auto x ){  v *= ( x > value_type{0} ); } );
                     return ans;
@@ -356,7 +356,7 @@ namespace ceras
                 return []<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                 {
                     typedef typename Tsor::value_type value_type;
-                    Tsor ans = grad; // shallow copy
+                    Tsor ans = grad.deep_copy(); // the incoming gradient is shared with other operators
                     //const typename Tsor::value_type zero{0};
                     for_each( ans.begin(), ans.end(), input.begin(), []( auto& v, auto x ){ if ( (x <= value_type{0}) || (x >= value_type{6}) ) v = value_type{0}; } );
                     return ans;
@@ -414,7 +414,7 @@ namespace ceras
                                         [factor]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                         {
                                             typedef typename Tsor::value_type value_type;
-                                            Tsor ans = grad;// OK for shallow copy
+                                            Tsor ans = grad.deep_copy(); // the incoming gradient is shared with other operators
                                             for_each( ans.begin(), ans.end(), input.begin(), [factor]( value_type& v_back, value_type const v_in ){ v_back = (v_in > value_type{0}) ? v_back : factor*v_back; } );
                                             return ans;
                                         },
@@ -469,7 +469,7 @@ namespace ceras
                                         [alpha]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                         {
                                             typedef typename Tsor::value_type value_type;
-                                            Tsor ans = grad;// OK for shallow copy
+                                            Tsor ans = grad.deep_copy(); // the incoming gradient is shared with other operators
                                             for_each( ans.begin(), ans.end(), input.begin(), [alpha]( value_type& v_back, value_type const v_in ){ v_back = (v_in >= value_type{0}) ? v_back : alpha*std::exp(v_back); } );
                                             return ans;
                                         },
@@ -508,7 +508,7 @@ namespace ceras
                                     },
                                     []<Tensor Tsor>( Tsor const&, Tsor const& output, Tsor const& grad ) noexcept
                                     {
-                                        Tsor ans = grad;
+                                        Tsor ans = grad.deep_copy();
                                         for_each( ans.begin(), ans.end(), output.begin(), []( auto& a, auto o ){ a *= o; } );
                                         return ans;
                                     },
@@ -544,7 +544,7 @@ namespace ceras
                                     []<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                     {
                                         typedef typename Tsor::value_type value_type;
-                                        Tsor ans = grad;
+                                        Tsor ans = grad.deep_copy();
                                         for_each( ans.begin(), ans.end(), input.begin(), []( auto& a, auto x ) { a = ((x > value_type{1}) || (x < value_type{-1})) ? value_type{0} : (a / value_type{2}); } );
                                         return ans;
                                     },
@@ -602,7 +602,7 @@ namespace ceras
                                     [_dgelu]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
                                     {
                                         //typedef typename Tsor::value_type value_type;
-                                        Tsor ans = grad;
+                                        Tsor ans = grad.deep_copy();
                                         for_each( ans.begin(), ans.end(), [&_dgelu]( auto& x ) {  x = _dgelu(x); } );
                                         return ans;
                                     },
diff --git a/include/operation.hpp b/include/operation.hpp
index cd42b05..1a2bfcf 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1095,7 +1095,7 @@ namespace ceras
                                         {
                                             better_assert( !has_nan( grad ), "input gradient for operator clip contains NaN!" );
                                             const typename Tsor::value_type zero{0};
-                                            Tsor ans = grad;
+                                            Tsor ans = grad.deep_copy();
                                             for ( auto idx : range( input.size() ) )
                                                 ans[idx] = (input[idx] < lower) ? zero :
                                                            (input[idx] > upper) ? zero :
-- 
2.43.0


From 90feb80ea060018a94d683ccdc777b215cbf6c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 14/85] fix: derivative of softplus

---
 include/activation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index bda057b..49fde8d 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -191,7 +191,7 @@ namespace ceras
                                     {
                                         Tsor& ans = context_cast<Tsor>( backward_cache );
                                         ans.resize( input.shape() ); // 1 / ( 1 + exp(-x) )
-                                        for_each( ans.begin(), ans.end(), input.begin(), grad.begin(), []( auto& a, auto i, auto g ){ a = g / ( typename Tsor::value_type{1} - std::exp(-i) ); } );
+                                        for_each( ans.begin(), ans.end(), input.begin(), grad.begin(), []( auto& a, auto i, auto g ){ a = g / ( typename Tsor::value_type{1} + std::exp(-i) ); } );
                                         return ans;
                                     },
                                     "softplus"
-- 
2.43.0


From 04dad9cdeb563be2c5173dece6a150fbc5dee5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 15/85] fix: derivative of elu

---
 include/activation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 49fde8d..0433b03 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -470,7 +470,7 @@ namespace ceras
                                         {
                                             typedef typename Tsor::value_type value_type;
                                             Tsor ans = grad.deep_copy(); // the incoming gradient is shared with other operators
-                                            for_each( ans.begin(), ans.end(), input.begin(), [alpha]( value_type& v_back, value_type const v_in ){ v_back = (v_in >= value_type{0}) ? v_back : alpha*std::exp(v_back); } );
+                                            for_each( ans.begin(), ans.end(), input.begin(), [alpha]( value_type& v_back, value_type const v_in ){ v_back = (v_in >= value_type{0}) ? v_back : v_back*alpha*std::exp(v_in); } );
                                             return ans;
                                         },
                                         "elu",
-- 
2.43.0


From 988d35f150d0a318112b4ceb1c2b5dcd168a2e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 16/85] fix: derivative of gelu

---
 include/activation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 0433b03..9c55ff2 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -584,7 +584,7 @@ namespace ceras
         {
             auto const sq_2_pi_x = 0.79788456080286535588 * x;
             auto const _xx = x * x;
-            auto const ans = 0.5 * ( 1.0 + std::tanh( sq_2_pi_x * ( 1.0 + 0.044715 * _xx ) ) ) + sq_2_pi_x * sech_2( sq_2_pi_x * (1.0 + 0.044715 * _xx ) * ( 1.0 + 0.134145 * _xx) );
+            auto const ans = 0.5 * ( 1.0 + std::tanh( sq_2_pi_x * ( 1.0 + 0.044715 * _xx ) ) ) + sq_2_pi_x * 0.5 * sech_2( sq_2_pi_x * (1.0 + 0.044715 * _xx ) ) * ( 1.0 + 0.134145 * _xx );
             return static_cast<T>( ans );
         };
 
@@ -599,11 +599,11 @@ namespace ceras
                                         ans.map([_gelu](auto& x) { x = _gelu(x); });
                                         return ans;
                                     },
-                                    [_dgelu]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
+                                    [_dgelu]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                     {
                                         //typedef typename Tsor::value_type value_type;
                                         Tsor ans = grad.deep_copy();
-                                        for_each( ans.begin(), ans.end(), [&_dgelu]( auto& x ) {  x = _dgelu(x); } );
+                                        for_each( ans.begin(), ans.end(), input.begin(), [&_dgelu]( auto& g, auto x ) {  g *= _dgelu(x); } );
                                         return ans;
                                     },
                                     "gelu"
-- 
2.43.0


From c4de39ce126b62d9a3c2e0395763aa6184b917e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 17/85] fix: mish and lisht are element-wise, not matrix,
 products

---
 include/activation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 9c55ff2..2a76add 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -675,7 +675,7 @@ namespace ceras
     template< Expression Ex >
     auto mish( Ex const& ex ) noexcept
     {
-        return ex*tanh(softplus(ex));
+        return hadamard_product( ex, tanh(softplus(ex)) );
     }
 
 
@@ -690,7 +690,7 @@ namespace ceras
     template< Expression Ex >
     auto lisht( Ex const& ex ) noexcept
     {
-        return ex*tanh(ex);
+        return hadamard_product( ex, tanh(ex) );
     }
 
 }//namespace ceras
-- 
2.43.0


From b16f8a3c59d5c90cdc1b0bc152afd1af9f7b73d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 18/85] fix: derivative of softmax

---
 include/activation.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 2a76add..0a11d45 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -109,7 +109,14 @@ namespace ceras
                                     {
                                         better_assert( !has_nan( grad ), "backprop: upcoming gradient for activation softmax contains NaN" );
                                         Tsor ans = grad.deep_copy();
-                                        for_each( ans.begin(), ans.end(), output.begin(), []( auto& a, auto o ) { a *= o * ( typename Tsor::value_type{1} - o ); } );
+                                        std::size_t const last_dim = *(output.shape().rbegin());
+                                        std::size_t const rest_dim = output.size() / last_dim;
+                                        for ( auto idx : range( rest_dim ) )
+                                        { // da_i = o_i * ( g_i - sum_j( g_j * o_j ) )
+                                            auto [begin, end, o_begin] = std::make_tuple( ans.begin()+idx*last_dim, ans.begin()+(idx+1)*last_dim, output.begin()+idx*last_dim );
+                                            typename Tsor::value_type const sum = std::inner_product( begin, end, o_begin, typename Tsor::value_type{0} );
+                                            for_each( begin, end, o_begin, [sum]( auto& a, auto o ) { a = o * ( a - sum ); } );
+                                        }
                                         return ans;
                                     },
                                     "softmax"
-- 
2.43.0


From 6648e360e28b5f49de0b916c481deedb4c3c78e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 19/85] fix: derivative of log1p

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 1a2bfcf..fdbb989 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -4412,7 +4412,7 @@ namespace ceras
                                     {
                                         Tsor& ans = context_cast<Tsor>( backward_cache );
                                         ans.resize( input.shape() );
-                                        for_each( input.begin(), input.end(), grad.begin(), ans.begin(), []( auto x, auto g, auto& v ) noexcept { v = g / x; } );
+                                        for_each( input.begin(), input.end(), grad.begin(), ans.begin(), []( auto x, auto g, auto& v ) noexcept { v = g / ( typename Tsor::value_type{1} + x ); } );
                                         return ans;
                                     },
                                     "log1p"
-- 
2.43.0


From e7c703bd2433105d7450c777437ea9b53e6a0d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 20/85] fix: derivative of atan2

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index fdbb989..97f2ea2 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2577,7 +2577,7 @@ namespace ceras
                 l_ans.resize( lhs_input.shape() );
                 Tsor& r_ans = context_cast<Tsor>( backward_cache_rhs );
                 r_ans.resize( rhs_input.shape() );
-                for_each( grad.begin(), grad.end(), l_ans.begin(), r_ans.begin(), lhs_input.begin(), rhs_input.begin(), []( auto const g, auto& l, auto& r, auto const x, auto const y ) { auto const c = x*x+y*y; l = -g*y/c; r = g*x/c; } );
+                for_each( grad.begin(), grad.end(), l_ans.begin(), r_ans.begin(), lhs_input.begin(), rhs_input.begin(), []( auto const g, auto& l, auto& r, auto const x, auto const y ) { auto const c = x*x+y*y; l = g*y/c; r = -g*x/c; } );
                 return std::make_tuple( l_ans, r_ans );
             },
             "atan2"
-- 
2.43.0


From 0e764741a7323e23c46dda102f601b1db57c1bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 21/85] fix: minimum passed the gradient to the larger operand

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 97f2ea2..6f79a20 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2544,7 +2544,7 @@ namespace ceras
                 Tsor& r_ans = context_cast<Tsor>( backward_cache_rhs );
                 r_ans.resize( rhs_input.shape() );
 
-                for_each( grad.begin(), grad.end(), mask.begin(), l_ans.begin(), r_ans.begin(), []( auto const g, auto const m, auto& l, auto& r ) { if ( m < 0.5 ) { l = g; r = 0.0; } else { l = 0.0; r = g; } } );
+                for_each( grad.begin(), grad.end(), mask.begin(), l_ans.begin(), r_ans.begin(), []( auto const g, auto const m, auto& l, auto& r ) { if ( m > 0.5 ) { l = g; r = 0.0; } else { l = 0.0; r = g; } } );
 
                 return std::make_tuple( l_ans, r_ans );
             },
-- 
2.43.0


From 136754b7d9ecdbac00c0ca7318a7764bce0deb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 22/85] fix: softplus overflowed for large inputs

---
 include/activation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 0a11d45..2805197 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -191,7 +191,7 @@ namespace ceras
                                         Tsor& ans = context_cast<Tsor>( forward_cache );
                                         ans.resize( input.shape() );
                                         std::copy( input.begin(), input.end(), ans.begin() );
-                                        ans.map( [](auto& x){ x = std::log(1.0+std::exp(x)); } ); // ln( 1+e^x )
+                                        ans.map( [](auto& x){ x = std::max( x, typename Tsor::value_type{0} ) + std::log1p( std::exp( -std::abs(x) ) ); } ); // ln( 1+e^x ), without overflow
                                         return ans;
                                     },
                                     [backward_cache]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
-- 
2.43.0


From 743339f47d9ae1b0c539d71cf48d28cfc80daa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 23/85] fix: element-wise product of tensors that only match
 after broadcasting

---
 include/operation.hpp |  3 ++-
 include/tensor.tcc    | 23 ++++++++++-------------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 6f79a20..fdf7225 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -869,7 +869,8 @@ namespace ceras
                                         };
                                         return std::make_tuple( grad_fun( lhs_input, rhs_input ), grad_fun( rhs_input, lhs_input ) );
                                      },
-                                     "elementwise_product"
+                                     "elementwise_product",
+                                     []( std::vector<unsigned long> const& l, std::vector<unsigned long> const& r ) noexcept { return broadcast_shape( l, r ); }
                 )( lhs_ex, rhs_ex );
     };
 
diff --git a/include/tensor.tcc b/include/tensor.tcc
index 7062103..3f8cc21 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -414,6 +414,12 @@ namespace ceras
                 continue;
             }
 
+            if (dim_a == -1UL || dim_b == -1UL) // a dimension not known yet
+            {
+                ans.push_back( std::min( dim_a, dim_b ) );
+                continue;
+            }
+
             better_assert( dim_a == dim_b, fmt::format("broadcasting: expecting same dimension, but got dim_a = {}, dim_b = {}, while shape_a={}, shape_b={}", dim_a, dim_b, shape_a, shape_b) );
             ans.push_back( dim_a );
         }
@@ -714,19 +720,10 @@ namespace ceras
     template< Tensor Tsor >
     Tsor elementwise_product( Tsor const& lhs, Tsor const& rhs ) noexcept
     {
-        unsigned long const l_size = lhs.size();
-        unsigned long const r_size = rhs.size();
-        if ( l_size < r_size ) return elementwise_product(rhs, lhs);
-
-        unsigned long const repeats = l_size / r_size;
-        better_assert( (r_size * repeats) == l_size, "Dimension is not match!" );
-
-        Tsor ans = lhs.deep_copy();
-        for ( auto idx : range( repeats ) )
-            for ( auto jdx : range( r_size ) )
-            {
-                ans[idx*r_size+jdx] *= rhs[jdx];
-            }
+        auto const& broadcasted_shape = broadcast_shape( lhs.shape(), rhs.shape() );
+        Tsor ans = broadcast_tensor( lhs, broadcasted_shape ).deep_copy();
+        Tsor const& rrhs = broadcast_tensor( rhs, broadcasted_shape );
+        for_each( ans.begin(), ans.end(), rrhs.begin(), []( auto& x, auto const& y ){ x *= y; } );
 
         return ans;
     }
-- 
2.43.0


From e95ffad47fc94cc06124ab09cd10de4393d74703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 24/85] fix: img2col ordered its rows [CH, r, c] while the
 kernels are [r, c, CH]

---
 include/operation.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index fdf7225..4365577 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1565,9 +1565,10 @@ namespace ceras
                     std::int64_t const im_offset = bs * R * C * CH;
                     for ( auto c : range( CH * kernel_row * kernel_col ) )
                     {
-                        std::int64_t const w_offset = c % kernel_col;
-                        std::int64_t const h_offset = ( c / kernel_col ) % kernel_row;
-                        std::int64_t const c_im = c / ( kernel_col * kernel_row );
+                        // the kernels are of shape [NC, r, c, CH], channel changes fastest
+                        std::int64_t const c_im = c % CH;
+                        std::int64_t const w_offset = ( c / CH ) % kernel_col;
+                        std::int64_t const h_offset = c / ( CH * kernel_col );
 
                         for ( auto h : range( output_row ) )
                         {
-- 
2.43.0


From 6ee389f816f4218c58469c71199ceeaa6c564a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 25/85] fix: img2col reused its index record for inputs of
 another shape

---
 include/operation.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 4365577..203daaa 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1535,7 +1535,7 @@ namespace ceras
 
         auto img2col_forward = []<Tensor Tsor>
         (
-            std::vector<std::uint32_t>& index_record, Tsor const& input_img, Tsor& output_col_mat,
+            std::vector<std::uint32_t>& index_record, std::vector<unsigned long>& index_shape, Tsor const& input_img, Tsor& output_col_mat,
             unsigned long kernel_row, unsigned long kernel_col,
             unsigned long padding_row, unsigned long padding_col,
             unsigned long stride_row, unsigned long stride_col,
@@ -1555,8 +1555,9 @@ namespace ceras
 
             output_col_mat.resize( {output_column_matrix_row, output_column_matrix_col} );
 
-            if ( index_record.size() != output_column_matrix_row * output_column_matrix_col ) // first-run?
+            if ( index_shape != input_shape ) // first-run? or with another input shape?
             {
+                index_shape = input_shape;
                 index_record.resize( output_column_matrix_row * output_column_matrix_col );
 
                 for ( auto bs : range( BS ) )
@@ -1625,6 +1626,7 @@ namespace ceras
         return [row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation, img2col_forward, img2col_backward]<Expression Ex>( Ex const& ex ) noexcept
         {
             std::shared_ptr<std::vector<std::uint32_t>> s_index_record = std::make_shared<std::vector<std::uint32_t>>(); // col_img[idx] = img[index_record[idx]]  -- (-1) for zero padding
+            std::shared_ptr<std::vector<unsigned long>> s_index_shape = std::make_shared<std::vector<unsigned long>>(); // input shape the index record is made for
             std::shared_ptr<std::any> output_cache = std::make_shared<std::any>();
             std::shared_ptr<std::any> back_grad_cache = std::make_shared<std::any>();
 
@@ -1633,7 +1635,7 @@ namespace ceras
                 [=]<Tensor Tsor>( Tsor const & tsor ) noexcept
                 {
                     Tsor& output = context_cast<Tsor>( output_cache );
-                    img2col_forward( *s_index_record, tsor, output, row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation );
+                    img2col_forward( *s_index_record, *s_index_shape, tsor, output, row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation );
                     return Tsor{output};
                 },
                 [=]<Tensor Tsor>( Tsor const& input, Tsor const& output, Tsor const& grad ) noexcept
-- 
2.43.0


From 8aa7a7533e0a6bf78f29f739df2b4b46c6411c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 26/85] fix: convolution took the row padding for its output
 columns

---
 include/operation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 203daaa..8432198 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1694,7 +1694,7 @@ namespace ceras
             }
 
             unsigned long const row_output = ( row_input + 2 * row_padding - ( row_dilation * (row_kernel - 1) + 1 ) ) / row_stride + 1;
-            unsigned long const col_output = ( col_input + 2 * row_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
+            unsigned long const col_output = ( col_input + 2 * col_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
 
             auto lhs_ex_as_col = img2col(row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation)( lhs_ex ); // [BS, R, C, CH] ==> [r*c*CH, BS*new_row*new_col]
 
@@ -1747,7 +1747,7 @@ namespace ceras
             }
 
             unsigned long const row_output = ( row_input + 2 * row_padding - ( row_dilation * (row_kernel - 1) + 1 ) ) / row_stride + 1;
-            unsigned long const col_output = ( col_input + 2 * row_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
+            unsigned long const col_output = ( col_input + 2 * col_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
 
             auto lhs_ex_as_col = img2col(row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation)( lhs_ex ); // [BS, R, C, CH] ==> [r*c*CH, BS*new_row*new_col]
 
-- 
2.43.0


From 90ec4bfbb882ddb0faff8cf8d16867a25061a4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 27/85] fix: "same" padding of strides larger than the kernel
 underflowed

---
 include/operation.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 8432198..66fbd9e 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1685,9 +1685,9 @@ namespace ceras
             unsigned long col_padding = 0;
             if ( padding == "same" )
             {
-                unsigned long const row_padding_total = (row_kernel + (row_kernel - 1) * (row_dilation - 1) - row_stride);
+                unsigned long const row_padding_total = std::max( row_kernel + (row_kernel - 1) * (row_dilation - 1), row_stride ) - row_stride; // no padding for strides larger than the kernel
                 better_assert( !(row_padding_total & 0x1), "Expecting total row padding to be even, but got ", row_padding_total, " With row input ", row_input, " and row_stride ", row_stride );
-                unsigned long const col_padding_total = (col_kernel + (col_kernel - 1) * (col_dilation - 1) - col_stride);
+                unsigned long const col_padding_total = std::max( col_kernel + (col_kernel - 1) * (col_dilation - 1), col_stride ) - col_stride; // no padding for strides larger than the kernel
                 better_assert( !(col_padding_total & 0x1), "Expecting total col padding to be even, but got ", col_padding_total );
                 row_padding = ((row_kernel&1)+row_padding_total) >> 1;
                 col_padding = ((col_kernel&1)+col_padding_total) >> 1;
@@ -1740,8 +1740,8 @@ namespace ceras
             unsigned long col_padding = 0;
             if ( padding == "same" )
             {
-                unsigned long const row_padding_total = (row_kernel + (row_kernel - 1) * (row_dilation - 1) - row_stride);
-                unsigned long const col_padding_total = (col_kernel + (col_kernel - 1) * (col_dilation - 1) - col_stride);
+                unsigned long const row_padding_total = std::max( row_kernel + (row_kernel - 1) * (row_dilation - 1), row_stride ) - row_stride; // no padding for strides larger than the kernel
+                unsigned long const col_padding_total = std::max( col_kernel + (col_kernel - 1) * (col_dilation - 1), col_stride ) - col_stride; // no padding for strides larger than the kernel
                 row_padding = ((row_kernel&1)+row_padding_total) >> 1;
                 col_padding = ((col_kernel&1)+col_padding_total) >> 1;
             }
-- 
2.43.0


From 2b5a5202ee95f7d36b5707b570dc4a1ceb90f8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 28/85] fix: max pooling kept the marks and gradients of
 earlier runs

---
 include/operation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 66fbd9e..2d8a3c7 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1974,7 +1974,7 @@ namespace ceras
 
                         Tsor& mask__ = context_cast<Tsor>( mask );
                         mask__.resize( input.shape() );
-
+                        std::fill( mask__.begin(), mask__.end(), value_type{0} ); // forget the marks of the last run
 
                         std::vector<unsigned long> shape = input.shape();
                         auto const[batch_size, row, col, channel] = std::make_tuple(shape[0], shape[1], shape[2], shape[3]);
@@ -2026,6 +2026,7 @@ namespace ceras
 
                         Tsor& ans = context_cast<Tsor>( backward_cache );
                         ans.resize( input.shape() );
+                        std::fill( ans.begin(), ans.end(), value_type{0} );
 
                         view_4d<value_type> ta{ ans.data(), batch_size, row, col, channel };
 
-- 
2.43.0


From 80161a8fb72f472390517bd2347452f5ba4f3980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 29/85] fix: average pooling read past the gradient for sizes
 not multiples of the stride

---
 include/operation.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 2d8a3c7..886c434 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2120,6 +2120,7 @@ namespace ceras
 
                     Tsor& ans = context_cast<Tsor>( backward_cache );
                     ans.resize( input.shape() );
+                    std::fill( ans.begin(), ans.end(), value_type{0} ); // rows and columns not filling a window have no gradient
 
                     view_4d<value_type> ta{ ans.data(), batch_size, row, col, channel };
 
@@ -2128,8 +2129,8 @@ namespace ceras
 
                     value_type const factor = value_type{1} / static_cast<value_type>(stride*stride);
                     for ( auto bs : range( batch_size ) )
-                        for ( auto r : range( row ) )
-                            for ( auto c : range( col ) )
+                        for ( auto r : range( row/stride*stride ) )
+                            for ( auto c : range( col/stride*stride ) )
                                 for ( auto ch : range( channel ) )
                                     ta[bs][r][c][ch] = factor * tg[bs][r/stride][c/stride][ch];
                     return ans;
-- 
2.43.0


From dc88b1933ed6950df2554ca1dc11a9fcd1e4aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 30/85] fix: zero padding left old values in the border when
 its input shape changed

---
 include/operation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index 886c434..9bb3058 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2771,6 +2771,7 @@ namespace ceras
                         // 4D view of output tensor
                         Tsor& ans = context_cast<Tsor>( forward_cache );
                         ans.resize( {batch_size, top+row+bottom, left+col+right, channel} );
+                        std::fill( ans.begin(), ans.end(), value_type{0} );
                         view_4d<value_type> ta{ ans.data(), batch_size, top+row+bottom, left+col+right, channel };
 
                         for ( auto bs : range( batch_size ) )
-- 
2.43.0


From c54a50fd26929a1b0c723951ee91fe2375da3588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 31/85] fix: output shape of reduce_min, reduce_max and
 reduce_sum along the default axis

---
 include/operation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 9bb3058..268b88a 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -3343,7 +3343,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> ans = shape;
                     auto new_axis = std::min( axis, shape.size()-1 );
-                    std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+new_axis );
+                    std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
                     return ans;
                 },
@@ -3478,7 +3478,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> ans = shape;
                     auto const new_axis = std::min( axis, shape.size()-1 );
-                    std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+new_axis );
+                    std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
                     return ans;
                 },
@@ -3594,7 +3594,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> ans = shape;
                     auto const new_axis = std::min( axis, shape.size()-1 );
-                    std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+new_axis );
+                    std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
                     return ans;
                 },
-- 
2.43.0


From a98c0c1b4557bc4ca827313e9bbb4d33a34ad1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 32/85] fix: concatenate must not mix iterators of two
 temporaries in its backward pass

---
 include/operation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 268b88a..ed7ff60 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2418,7 +2418,8 @@ namespace ceras
 
                     // 2D view of grad
                     unsigned long const ax = (axe == (unsigned long)(-1)) ? grad.ndim()-1 : axe;
-                    unsigned long const g_col = std::accumulate( grad.shape().begin()+ax, grad.shape().end(), 1UL, []( unsigned long x, unsigned long y ){ return x*y; } );
+                    std::vector<unsigned long> const& g_shape = grad.shape();
+                    unsigned long const g_col = std::accumulate( g_shape.begin()+ax, g_shape.end(), 1UL, []( unsigned long x, unsigned long y ){ return x*y; } );
                     unsigned long const g_row = grad.size() / g_col;
                     view_2d<value_type> v_g{ grad.data(), g_row, g_col };
 
-- 
2.43.0


From 5082944aa38018851720e5e5da73b854f002f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 33/85] fix: the gradient of conv2d_transpose did not compile

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index ed7ff60..7b10122 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1832,7 +1832,7 @@ namespace ceras
 
                     std::vector<unsigned long> const& output_shape = grad.shape();
                     auto [_bs, o_row, o_col, _ch] = std::make_tuple( output_shape[0], output_shape[1], output_shape[2], output_shape[3] );
-                    view_4d<value_type> g_4d{ grad.data(), bs, o_row, o_col, ch };
+                    view_4d<value_type const> g_4d{ grad.data(), bs, o_row, o_col, ch };
 
                     unsigned long row_offset = (padding == std::string{"valid"}) ? (row_kernel-1) : 0;
                     unsigned long col_offset = (padding == std::string{"valid"}) ? (col_kernel-1) : 0;
-- 
2.43.0


From 1df7f3870efae7fc98e97a91fd5f8c8759c1fbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 34/85] fix: conv2d_transpose applied its stride a second time,
 undoing the up-sampling

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 7b10122..6920c83 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1876,7 +1876,7 @@ namespace ceras
         {
             //auto new_lhs_ex = conv2d_tranpose_intermediate( row_kernel, col_kernel, row_stride, col_stride, padding )( lhs_ex );
             auto new_lhs_ex = conv2d_tranpose_intermediate( row_kernel, col_kernel, row_stride, col_stride, padding )( lhs_ex );
-            return general_conv2d( row_stride, col_stride, row_dilation, col_dilation, padding )( new_lhs_ex, flip(1)(flip(2)(rhs_ex)) );
+            return general_conv2d( 1, 1, row_dilation, col_dilation, padding )( new_lhs_ex, flip(1)(flip(2)(rhs_ex)) ); // new_lhs_ex is strided already
         };
     }
 
-- 
2.43.0


From c765b9035e0ba01d5a96c5bfa2324472ec7179eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 35/85] fix: cropping more rows or columns than there are was
 not detected (unsigned underflow)

---
 include/operation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 6920c83..a54c19b 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2893,8 +2893,8 @@ namespace ceras
                         Tsor input_ = input;
                         view_4d<value_type> ts{ input_.data(), batch_size, row, col, channel };
 
-                        better_assert( row-top-bottom > 0, fmt::format("Cropping2D: expecting a smaller cropping dimension in row: row:{}, top:{}, bottop:{}", row, top, bottom ) );
-                        better_assert( col-left-right > 0, fmt::format("Cropping2D: expecting a smaller cropping dimension in col: col:{}, left:{}, right:{}", col, left, right ) );
+                        better_assert( row > top+bottom, fmt::format("Cropping2D: expecting a smaller cropping dimension in row: row:{}, top:{}, bottop:{}", row, top, bottom ) );
+                        better_assert( col > left+right, fmt::format("Cropping2D: expecting a smaller cropping dimension in col: col:{}, left:{}, right:{}", col, left, right ) );
 
                         // 4D view of output tensor
                         Tsor& ans = context_cast<Tsor>( forward_cache );
-- 
2.43.0


From 0f2edaf937172a4d9731a25b04dd99a990197639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 36/85] fix: convolution kernels larger than the padded image
 wrapped unsigned sizes and wrote out of bounds

---
 include/operation.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index a54c19b..905a571 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1548,6 +1548,8 @@ namespace ceras
             better_assert( input_shape.size() == 4, "Expecting a 4D tensor." );
             auto const [BS, R, C, CH] = std::make_tuple( input_shape[0], input_shape[1], input_shape[2], input_shape[3] );
 
+            better_assert( R + 2 * padding_row > dilation_row * (kernel_row - 1), "img2col: kernel row does not fit into the padded image row ", R + 2 * padding_row );
+            better_assert( C + 2 * padding_col > dilation_col * (kernel_col - 1), "img2col: kernel col does not fit into the padded image col ", C + 2 * padding_col );
             unsigned long const output_row = ( R + 2 * padding_row - ( dilation_row * (kernel_row - 1) + 1 ) ) / stride_row + 1;
             unsigned long const output_col = ( C + 2 * padding_col - ( dilation_col * (kernel_col - 1) + 1 ) ) / stride_col + 1;
             unsigned long const output_column_matrix_row = kernel_row * kernel_col * CH;
@@ -1693,6 +1695,8 @@ namespace ceras
                 col_padding = ((col_kernel&1)+col_padding_total) >> 1;
             }
 
+            better_assert( row_input + 2 * row_padding > row_dilation * (row_kernel - 1), "Expecting the kernel row to fit into the padded row ", row_input + 2 * row_padding );
+            better_assert( col_input + 2 * col_padding > col_dilation * (col_kernel - 1), "Expecting the kernel col to fit into the padded col ", col_input + 2 * col_padding );
             unsigned long const row_output = ( row_input + 2 * row_padding - ( row_dilation * (row_kernel - 1) + 1 ) ) / row_stride + 1;
             unsigned long const col_output = ( col_input + 2 * col_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
 
@@ -1746,6 +1750,8 @@ namespace ceras
                 col_padding = ((col_kernel&1)+col_padding_total) >> 1;
             }
 
+            better_assert( row_input + 2 * row_padding > row_dilation * (row_kernel - 1), "Expecting the kernel row to fit into the padded row ", row_input + 2 * row_padding );
+            better_assert( col_input + 2 * col_padding > col_dilation * (col_kernel - 1), "Expecting the kernel col to fit into the padded col ", col_input + 2 * col_padding );
             unsigned long const row_output = ( row_input + 2 * row_padding - ( row_dilation * (row_kernel - 1) + 1 ) ) / row_stride + 1;
             unsigned long const col_output = ( col_input + 2 * col_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
 
-- 
2.43.0


From 2e059203cf527a748dc88ccc1597e57dcb56870f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 37/85] fix: setting the trainable flag of a model did not
 compile

---
 include/model.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/model.hpp b/include/model.hpp
index 7937e5e..6a686d9 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -23,12 +23,12 @@ namespace ceras
         }
         else if constexpr (is_binary_operator_v<Ex>)
         {
-            make_trainable( ex.lhs_op_, t );
-            make_trainable( ex.rhs_op_, t );
+            make_trainable( ex.lhs_op(), t );
+            make_trainable( ex.rhs_op(), t );
         }
         else if constexpr (is_unary_operator_v<Ex>)
         {
-            make_trainable( ex.op_, t );
+            make_trainable( ex.op(), t );
         }
     }
 
-- 
2.43.0


From 75a7fc5c5123cef066734c91c1e8a4fa3211c9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 38/85] fix: copies of a variable applied its regularizer each
 and did not share the trainable flag

---
 include/optimizer.hpp | 12 +++++------
 include/variable.hpp  | 47 +++++++++++++++++++++++--------------------
 2 files changed, 31 insertions(+), 28 deletions(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 2c2afa0..31da89e 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -49,7 +49,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -94,7 +94,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -145,7 +145,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -195,7 +195,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -270,7 +270,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -340,7 +340,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto& [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     //v.data() -= learning_rate_ * (v.gradient());
                     //
diff --git a/include/variable.hpp b/include/variable.hpp
index 37d4b55..0cbc628 100644
--- a/include/variable.hpp
+++ b/include/variable.hpp
@@ -23,14 +23,6 @@ namespace ceras
     template< Tensor Tsor >
     ceras_private::session<Tsor>& get_default_session();
 
-    template< Tensor Tsor >
-    struct variable_state
-    {
-        Tsor data_;
-        Tsor gradient_;
-        std::vector<Tsor> contexts_;
-    };
-
     template< typename Float > requires std::floating_point<Float>
     struct regularizer
     {
@@ -42,6 +34,16 @@ namespace ceras
         constexpr regularizer( value_type l1=0.0, value_type l2=0.0, bool synchronized=false ) noexcept : l1_{l1}, l2_{l2}, synchronized_{synchronized} {}
     };
 
+    template< Tensor Tsor >
+    struct variable_state
+    {
+        Tsor data_;
+        Tsor gradient_;
+        std::vector<Tsor> contexts_;
+        regularizer<typename Tsor::value_type> regularizer_; // shared by all copies, so it is applied once only
+        bool trainable_;                                     // shared by all copies, thus also visible to the optimizers
+    };
+
     template< Tensor Tsor >
     struct variable : enable_id<variable<Tsor>, "Variable">
     {
@@ -49,14 +51,13 @@ namespace ceras
         typedef typename tensor_type::value_type value_type;
 
         std::shared_ptr<variable_state<tensor_type>> state_;
-        regularizer<value_type> regularizer_;
-        bool trainable_;
-
-        variable( tensor_type const& data, value_type l1=value_type{0}, value_type l2=value_type{0}, bool trainable=true ) : enable_id<variable<tensor_type>, "Variable">{}, regularizer_{l1, l2, true}, trainable_{trainable}
+        variable( tensor_type const& data, value_type l1=value_type{0}, value_type l2=value_type{0}, bool trainable=true ) : enable_id<variable<tensor_type>, "Variable">{}
         {
             (*this).state_ = std::make_shared<variable_state<tensor_type>>();
             (*((*this).state_)).data_ = data;
             (*((*this).state_)).gradient_ = tensor_type{ data.shape() };
+            (*((*this).state_)).regularizer_ = regularizer<value_type>{ l1, l2, true };
+            (*((*this).state_)).trainable_ = trainable;
 
             auto& ss = get_default_session<tensor_type>();
             ss.remember( *this );
@@ -77,16 +78,18 @@ namespace ceras
             {
                 typedef typename tensor_type::value_type value_type;
                 state.gradient_.reset( value_type{0} );
-                regularizer_.synchronized_ = false; // mark changes
+                state.regularizer_.synchronized_ = false; // mark changes
             }
             return state.data_;
         }
 
         void backward( auto const& grad ) noexcept
         {
-            if (!trainable_) return;
-
             auto& state = *((*this).state_);
+
+            if (!state.trainable_) return;
+
+            auto& regularizer_ = state.regularizer_;
             {
                 if (state.gradient_.shape() != state.data_.shape())
                     state.gradient_.resize( state.data_.shape() );
@@ -159,29 +162,29 @@ namespace ceras
             gradient().reset();
         }
 
-        bool trainable() const noexcept { return trainable_; }
-        bool& trainable() noexcept { return trainable_; }
+        bool trainable() const noexcept { return (*((*this).state_)).trainable_; }
+        bool& trainable() noexcept { return (*((*this).state_)).trainable_; }
 
-        void trainable( bool t ) { trainable_ = t; }
+        void trainable( bool t ) { (*((*this).state_)).trainable_ = t; }
 
         value_type l1_regularizer() const
         {
-            return regularizer_.l1_;
+            return (*((*this).state_)).regularizer_.l1_;
         }
 
         value_type& l1_regularizer()
         {
-            return regularizer_.l1_;
+            return (*((*this).state_)).regularizer_.l1_;
         }
 
         value_type l2_regularizer() const
         {
-            return regularizer_.l2_;
+            return (*((*this).state_)).regularizer_.l2_;
         }
 
         value_type& l2_regularizer()
         {
-            return regularizer_.l2_;
+            return (*((*this).state_)).regularizer_.l2_;
         }
 
     };//struct variable
-- 
2.43.0


From 72eb07f279e2d6f63e3417b84a0506223306e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 39/85] fix: sgd took the Nesterov step without, and the plain
 momentum step with, its nesterov flag

---
 include/optimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 31da89e..4145634 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -58,7 +58,7 @@ namespace ceras
                         contexts.push_back( zeros_like( data ) );
                     auto& moments = contexts[0];
                     for_each( moments.begin(), moments.end(), gradient.begin(), [this]( T& m, T g ) { m *= (*this).momentum_; m -= (*this).learning_rate_ * g;} );
-                    if (!nesterov_ ) for_each( moments.begin(), moments.end(), data.begin(), gradient.begin(), [this]( T m, T& v, T g ) { v += (*this).momentum_ * m - (*this).learning_rate_ * g; } );
+                    if ( nesterov_ ) for_each( moments.begin(), moments.end(), data.begin(), gradient.begin(), [this]( T m, T& v, T g ) { v += (*this).momentum_ * m - (*this).learning_rate_ * g; } );
                     else data += moments;
 
                     gradient.reset(); // clear variable gradient
-- 
2.43.0


From 915911c10dd8af083f48dc4f5c981ef56a183aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 40/85] fix: adadelta kept its accumulated updates in the
 accumulated gradients

---
 include/optimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 4145634..d6cfc69 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -208,7 +208,7 @@ namespace ceras
                         contexts.push_back( zeros_like( data ) );
                     }
                     auto& moments = contexts[0];
-                    auto& delta = contexts[0];
+                    auto& delta = contexts[1];
 
                     /*
                     if (iterations_==0)
-- 
2.43.0


From 8e26ef5a7d1a0175ab1e65dccac4362946622a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 41/85] fix: output shape of cross_entropy_loss

---
 include/loss.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/loss.hpp b/include/loss.hpp
index 804f15e..3546833 100644
--- a/include/loss.hpp
+++ b/include/loss.hpp
@@ -129,7 +129,7 @@ namespace ceras
     template < Expression Lhs_Expression, Expression Rhs_Expression, std::floating_point F=float >
     auto constexpr cross_entropy_loss( Lhs_Expression const& lhs_ex, Rhs_Expression const& rhs_ex, F label_smoothing_factor=0.0 ) noexcept
     {
-        return make_binary_operator( cross_entropy_loss_context{}.make_forward( label_smoothing_factor ), cross_entropy_loss_context{}.make_backward( label_smoothing_factor ), "CrossEntropyLoss" )( lhs_ex, rhs_ex );
+        return make_binary_operator( cross_entropy_loss_context{}.make_forward( label_smoothing_factor ), cross_entropy_loss_context{}.make_backward( label_smoothing_factor ), "CrossEntropyLoss", []( std::vector<unsigned long> const&, std::vector<unsigned long> const& ) noexcept { return std::vector<unsigned long>{ {1,} }; } )( lhs_ex, rhs_ex );
     }
 
     template < Expression Lhs_Expression, Expression Rhs_Expression >
-- 
2.43.0


From ac3b3c938546e1c990f755864e6c7e35f3c61400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:21 +0000
Subject: [PATCH 42/85] fix: drop_out used the mask of its first run for ever,
 past its end for larger batches

---
 include/operation.hpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 905a571..157fb17 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1911,20 +1911,15 @@ namespace ceras
                     if ( learning_phase == 0 ) // defined in 'config.hpp'
                         return input;
 
-                    std::any& mask_ = *mask;
-                    // first run, initialize mask
-                    if ( !mask_.has_value() )
+                    // a new mask for every training run, as the elements to drop and the batch size may change
+                    Tsor& mask__ = context_cast<Tsor>( mask );
+                    mask__.resize( input.shape() );
                     {
                         Tsor const random_tensor = random<value_type>( input.shape() );
-                        Tsor mask__{ input.shape() };
                         for ( auto idx : range( input.size() ) )
-                            if ( random_tensor[ idx ] > factor )
-                                mask__[ idx ] = 1;
-                        mask_ = mask__; // initialize
+                            mask__[ idx ] = ( random_tensor[ idx ] > factor ) ? 1 : 0;
                     }
 
-                    Tsor& mask__ = std::any_cast<Tsor&>( mask_ );
-
                     Tsor& ans = context_cast<Tsor>( forward_cache );
                     ans.deep_copy( input );
 
-- 
2.43.0


From 38e9ec1823492e3e995cee0989da95ff46381578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:21 +0000
Subject: [PATCH 43/85] fix: derivative of drop_out missed its scaling

---
 include/operation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 157fb17..162f2a0 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1927,8 +1927,10 @@ namespace ceras
                         ans[idx] *= mask__[idx] / (value_type{1} - factor);
                     return ans;
                 },
-                [mask, backward_cache]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
+                [factor, mask, backward_cache]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
                 {
+                    typedef typename Tsor::value_type value_type;
+
                     if ( learning_phase == 0 ) // defined in 'config.hpp'
                         return grad;
 
@@ -1938,7 +1940,7 @@ namespace ceras
                     ans.deep_copy( grad );
 
                     for ( auto idx : range( grad.size() ) )
-                        ans[idx] *= mask__[idx];
+                        ans[idx] *= mask__[idx] / (value_type{1} - factor);
                     return ans;
                 },
                 "dropout",
-- 
2.43.0


From d9ad3a54981e3612a68fc8372e718516df9cbe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:21 +0000
Subject: [PATCH 44/85] fix: normalization_batch never gathered statistics when
 a prediction was made before the training

---
 include/operation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index 162f2a0..f72af5d 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2340,6 +2340,8 @@ namespace ceras
                     // update global average and global variance
                     {
                         Tsor& global_average = context_cast<Tsor>( global_average_cache, zeros_like( average ) );
+                        if ( global_average.empty() ) // a prediction was made before the training
+                            global_average = zeros_like( average );
                         // Note: No obvious different is observed between initializing global_variance to zeros and to ones with MNIST example:
                         //       initializing global_variance to zeros, after 10 epochs mnist gives an error of 0.026
                         //       initializing global_variance to ones, after 10 epochs mnist gives an error of 0.028
-- 
2.43.0


From 8d3b994144bdd3a6c31c8c01c22f31c0bb9b3ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:21 +0000
Subject: [PATCH 45/85] fix: normalization_batch wrote its gradient past the
 end of a smaller earlier batch

---
 include/operation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index f72af5d..c589185 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2366,7 +2366,8 @@ namespace ceras
                     unsigned long const channels = *(shape.rbegin());
                     unsigned long const rest_dims = input.size() / channels;
 
-                    Tsor& ans = context_cast<Tsor>( backward_cache, zeros_like( input ) );
+                    Tsor& ans = context_cast<Tsor>( backward_cache );
+                    ans.resize( input.shape() ); // the batch size may change
                     view_2d<value_type> ans_{ans.data(), rest_dims, channels };
                     view_2d<value_type> grad_{grad.data(), rest_dims, channels };
                     for ( auto r : range( rest_dims ) )
-- 
2.43.0


From a08a99ac8bf7e64884a9daffe295604795386d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:21 +0000
Subject: [PATCH 46/85] fix: derivative of normalization_batch ignored that
 average and variance depend on the input

---
 include/operation.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index c589185..bc090da 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2357,7 +2357,7 @@ namespace ceras
                     return ans;
                 },
 
-                [=]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
+                [=]<Tensor Tsor>( Tsor const& input, Tsor const& output, Tsor const& grad ) noexcept
                 {
                     typedef typename Tsor::value_type value_type;
                     Tsor& variance = context_extract<Tsor>( variance_cache );
@@ -2370,9 +2370,23 @@ namespace ceras
                     ans.resize( input.shape() ); // the batch size may change
                     view_2d<value_type> ans_{ans.data(), rest_dims, channels };
                     view_2d<value_type> grad_{grad.data(), rest_dims, channels };
-                    for ( auto r : range( rest_dims ) )
-                        for ( auto c : range( channels ) )
-                            ans_[r][c] = grad_[r][c] / std::sqrt( variance[c] + eps );
+                    view_2d<value_type> output_{output.data(), rest_dims, channels };
+                    for ( auto c : range( channels ) )
+                    {
+                        // the average and the variance depend on the input, too
+                        value_type grad_average{0};
+                        value_type grad_output_average{0};
+                        for ( auto r : range( rest_dims ) )
+                        {
+                            grad_average += grad_[r][c];
+                            grad_output_average += grad_[r][c] * output_[r][c];
+                        }
+                        grad_average /= static_cast<value_type>( rest_dims );
+                        grad_output_average /= static_cast<value_type>( rest_dims );
+
+                        for ( auto r : range( rest_dims ) )
+                            ans_[r][c] = ( grad_[r][c] - grad_average - output_[r][c] * grad_output_average ) / std::sqrt( variance[c] + eps );
+                    }
                     return ans;
                 },
                 "normalization_batch",
-- 
2.43.0


From 4b0edfeb643dc9559991e4ed5a13bb038e8f4b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:39 +0000
Subject: [PATCH 47/85] fix: sliding_2d shifted gradients outside of the
 learning phase

---
 include/operation.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index bc090da..0d5709a 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -3077,6 +3077,9 @@ namespace ceras
                     },
                     [=]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
                     {
+                        if (learning_phase != 1)
+                            return grad;
+
                         typedef typename Tsor::value_type value_type;
                         std::vector<unsigned long> const& shape = grad.shape();
                         auto const[batch_size, row, col, channel] = std::make_tuple( shape[0], shape[1], shape[2], shape[3] );
-- 
2.43.0


From e60dadd9f7b01801251ae21c9dfe023158fc1d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:09 +0000
Subject: [PATCH 48/85] fix: a model could not be applied to an expression (did
 not compile)

---
 include/model.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/model.hpp b/include/model.hpp
index 6a686d9..e8e3ca4 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -54,13 +54,13 @@ namespace ceras
         }
         else if constexpr (is_unary_operator_v<Ex>)
         {
-            return make_unary_operator( ex.forward_action_, ex.backward_action_, ex.name_, ex.output_shape_calculator_ )( replace_placeholder_with_expression( ex.op_, old_place_holder, new_expression ) );
+            return make_unary_operator( ex.forward_action(), ex.backward_action(), ex.name_, ex.output_shape_calculator(), ex.serializer() )( replace_placeholder_with_expression( ex.op(), old_place_holder, new_expression ) );
         }
         else if constexpr (is_binary_operator_v<Ex>)
         {
-            return make_binary_operator( ex.forward_action_, ex.backward_action_, ex.name_, ex.output_shape_calculator_ )
-                                       ( replace_placeholder_with_expression( ex.lhs_op_, old_place_holder, new_expression ),
-                                         replace_placeholder_with_expression( ex.rhs_op_, old_place_holder, new_expression ) );
+            return make_binary_operator( ex.forward_action(), ex.backward_action(), ex.name_, ex.output_shape_calculator(), ex.serializer() )
+                                       ( replace_placeholder_with_expression( ex.lhs_op(), old_place_holder, new_expression ),
+                                         replace_placeholder_with_expression( ex.rhs_op(), old_place_holder, new_expression ) );
         }
         else
         {
-- 
2.43.0


From 2397836c5c4c90172696d278562a89bd121522c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:09 +0000
Subject: [PATCH 49/85] fix: model fit trained on one batch of the validation
 split

---
 include/model.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/model.hpp b/include/model.hpp
index e8e3ca4..103ce57 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -206,7 +206,7 @@ namespace ceras
                     // forward pass
                     auto error = s.run( loss_ ).as_scalar();
                     // in case of training split, do backpropagation
-                    if ( l <= training_loops )
+                    if ( l < training_loops )
                     {
                         training_error += error;
                         s.run( compiled_optimizer_ );
-- 
2.43.0


From 7d753c82dc1221d79f20325949e41c65aebfeac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:09 +0000
Subject: [PATCH 50/85] fix: model fit validated with dropout on and let
 normalization learn from the validation split

---
 include/model.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/model.hpp b/include/model.hpp
index 103ce57..d311ffc 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -204,6 +204,7 @@ namespace ceras
                     std::copy_n( inputs.data() + l * input_size_per_batch, input_size_per_batch, input_samples.data() );
                     std::copy_n( outputs.data() + l * output_size_per_batch, output_size_per_batch, output_samples.data() );
                     // forward pass
+                    learning_phase = ( l < training_loops ) ? 1 : 0; // no training behaviours on the validation split
                     auto error = s.run( loss_ ).as_scalar();
                     // in case of training split, do backpropagation
                     if ( l < training_loops )
@@ -216,6 +217,7 @@ namespace ceras
                         validation_error += error;
                     }
                 }
+                learning_phase = 1; // restore learning phase
                 training_errors.push_back( training_error / training_loops );
                 validation_errors.push_back( validation_error / validation_loops );
                 if ( verbose )
-- 
2.43.0


From 504880a7c6f4e03620b110b52131de02360523ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:09 +0000
Subject: [PATCH 51/85] fix: a later prediction overwrote the result of an
 earlier one

---
 include/model.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/model.hpp b/include/model.hpp
index d311ffc..4ff7a28 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -353,7 +353,7 @@ namespace ceras
             auto& s = get_default_session<Tsor>();//.get();
             s.bind( place_holder_, input_tensor );
 
-            auto ans = s.run( expression_ );
+            auto ans = s.run( expression_ ).deep_copy(); // the expression reuses its memory in the next run
 
             learning_phase = 1; // restore learning phase
 
-- 
2.43.0


From 0ffcabb9003f5381d3fde84c47dab8969f5c40af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:43 +0000
Subject: [PATCH 52/85] fix: fit and evaluate looped for ever or threw when
 standard input is not a wide enough terminal

---
 include/utils/tqdm.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/utils/tqdm.hpp b/include/utils/tqdm.hpp
index 00ab065..bde9671 100644
--- a/include/utils/tqdm.hpp
+++ b/include/utils/tqdm.hpp
@@ -43,8 +43,9 @@ namespace dm_details
         }
         else
         {
-            winsize w;
-            ioctl(0, 0x5413, &w); // 0x5413 is translated from macro 'TIOCGWINSZ'
+            winsize w{};
+            if ( ioctl(0, 0x5413, &w) != 0 || w.ws_col == 0 ) // 0x5413 is translated from macro 'TIOCGWINSZ'
+                return 80; // standard input is not a terminal
             return w.ws_col;
         }
     }
@@ -194,7 +195,7 @@ namespace tq
         std::ostream* os_{&std::cerr};
 
         //index bar_size_{100};
-        index bar_size_{ dm_details::get_terminal_width()-40 };
+        index bar_size_{ std::max( dm_details::get_terminal_width()-40, 1 ) }; // never negative
         //index bar_size_{ dm_details::get_terminal_width() };
         index term_cols_{1};
 
-- 
2.43.0


From 5abd7956787cf6aedf2f1791366d03b7401b7ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 53/85] fix: parallel loops not starting at zero visited wrong
 indices, as did loops over narrow integers

---
 include/utils/parallel.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/utils/parallel.hpp b/include/utils/parallel.hpp
index 5320ffe..724c0b9 100644
--- a/include/utils/parallel.hpp
+++ b/include/utils/parallel.hpp
@@ -55,14 +55,12 @@ namespace ceras
 
             for ( auto index : range( total_cores-1 ) )
             {
-                Integer_Type first = tasks_per_thread * index + dim_first;
-                first = std::min( first, dim_last );
-                Integer_Type last =  first + tasks_per_thread;
-                last = std::min( last, dim_last );
+                Integer_Type first = std::min<std::uint_least64_t>( tasks_per_thread * index + dim_first, dim_last ); // compared before narrowing to Integer_Type
+                Integer_Type last =  std::min<std::uint_least64_t>( first + tasks_per_thread, dim_last );
                 threads.emplace_back( std::thread{ job_slice, first, last } );
             }
 
-            job_slice( tasks_per_thread*(total_cores-1), dim_last );
+            job_slice( std::min<std::uint_least64_t>( tasks_per_thread*(total_cores-1) + dim_first, dim_last ), dim_last );
 
             for ( auto& th : threads )
                 th.join();
-- 
2.43.0


From 7befd6c1eb839ee944734627f3202f64ef8c75ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:18 +0000
Subject: [PATCH 54/85] fix: real expression minus complex expression gave
 their sum

---
 include/complex_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex_operator.hpp b/include/complex_operator.hpp
index b0c959d..10f54fa 100644
--- a/include/complex_operator.hpp
+++ b/include/complex_operator.hpp
@@ -248,7 +248,7 @@ namespace ceras
     template< Complex C, Expression E >
     auto operator - ( E const& e, C const& c ) noexcept
     {
-        return c + e;
+        return complex{ e-real(c), negative(imag(c)) };
     }
 
     ///
-- 
2.43.0


From 46848011dd7fdd97fee7e400752c3c1c164de46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:18 +0000
Subject: [PATCH 55/85] fix: real expression times complex expression
 multiplied in the wrong order

---
 include/complex_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex_operator.hpp b/include/complex_operator.hpp
index 10f54fa..b209660 100644
--- a/include/complex_operator.hpp
+++ b/include/complex_operator.hpp
@@ -266,7 +266,7 @@ namespace ceras
     template< Complex C, Expression E >
     auto operator * ( E const& e, C const& c ) noexcept
     {
-        return c * e;
+        return complex{ e*real(c), e*imag(c) }; // matrix multiplication does not commute
     }
 
 
-- 
2.43.0


From 068d0d4d7a9fb0fb1ee5b98336a169eb2c52301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:53 +0000
Subject: [PATCH 56/85] fix: code generated for a tensor called a member
 function tensors do not have

---
 include/tensor.tcc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 3f8cc21..3ad9727 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1315,8 +1315,7 @@ namespace ceras
         std::string const& type = type2string<value_type>();
 
         std::vector<std::string> cpp_code;
-        cpp_code.emplace_back( fmt::format( "ceras::tensor<{}> {};", type, tensor_name ) );
-        cpp_code.emplace_back( fmt::format( "{}.load_tensor( \"{}\" );", tensor_name, file_name ) );
+        cpp_code.emplace_back( fmt::format( "ceras::tensor<{}> {} = ceras::load_tensor<{}>( \"{}\" );", type, tensor_name, type, file_name ) );
 
         return std::forward_as_tuple( tensor_name, cpp_code );
     }
-- 
2.43.0


From c0f116f66fe1b57393703dbe2bbdc12ba13e0559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:53 +0000
Subject: [PATCH 57/85] fix: code generated for an expression defined every
 shared sub-expression several times

---
 include/operation.hpp               |  2 +-
 include/utils/enable_serializer.hpp | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 0d5709a..0aab75a 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -359,7 +359,7 @@ namespace ceras
                                 auto const& [rhs_input_expression_name, rhs_input_expression_code] = serialize( rhs_input_expression );
                                 std::string const& self_expression_identity = fmt::format( "unary_expression_{}_{}", self_expression.name(), self_expression.id() );
                                 std::vector<std::string> self_expression_code = lhs_input_expression_code;
-                                std::copy( rhs_input_expression_code.begin(), rhs_input_expression_code.end(), std::back_inserter( self_expression_code ) );
+                                append_serialized_code( self_expression_code, rhs_input_expression_code );
                                 constexpr unsigned long number_of_args = sizeof...( Args );
                                 std::string arg_string_formater = std::string{ "{}" };
                                 {
diff --git a/include/utils/enable_serializer.hpp b/include/utils/enable_serializer.hpp
index 0a17297..95b88a9 100644
--- a/include/utils/enable_serializer.hpp
+++ b/include/utils/enable_serializer.hpp
@@ -7,6 +7,16 @@
 namespace ceras
 {
 
+    ///
+    /// Appends the generated code of another operand, omitting the definitions that are already there (two operands can share expressions).
+    ///
+    inline void append_serialized_code( std::vector<std::string>& code, std::vector<std::string> const& operand_code )
+    {
+        for ( auto const& line : operand_code )
+            if ( std::find( code.begin(), code.end(), line ) == code.end() )
+                code.emplace_back( line );
+    }
+
     struct default_unary_expression_serializer
     {
 
@@ -33,7 +43,7 @@ namespace ceras
             std::string binary_expression_identity = fmt::format( "binary_expression_{}_{}", binary_expression.name(), binary_expression.id() );
 
             std::vector<std::string> binary_expression_code = lhs_ex_code;
-            std::copy( rhs_ex_code.begin(), rhs_ex_code.end(), std::back_inserter( binary_expression_code ) );
+            append_serialized_code( binary_expression_code, rhs_ex_code );
 
             binary_expression_code.emplace_back( fmt::format( "auto {} = {}( {}, {} );", binary_expression_identity, binary_expression.name(), lhs_ex_name, rhs_ex_name ) );
 
-- 
2.43.0


From 687695891afb2da33538370ebd9e78018a7e6821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:53 +0000
Subject: [PATCH 58/85] fix: arguments of operators lost their types and quotes
 in generated code

---
 include/operation.hpp               | 12 ++++++------
 include/utils/enable_serializer.hpp | 26 ++++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 0aab75a..6ad5f70 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -334,7 +334,7 @@ namespace ceras
                     arg_string_formater += std::string{", {}"};
             }
             std::string code_formater =  std::string{"auto {} = {}( "} + arg_string_formater +  std::string{" )( {} );"};
-            self_expression_code.emplace_back( fmt::format( code_formater, self_expression_identity, self_expression.name(), args..., input_expression_name ) );
+            self_expression_code.emplace_back( fmt::format( code_formater, self_expression_identity, self_expression.name(), serialize_argument( args )..., input_expression_name ) );
             return std::make_tuple( self_expression_identity, self_expression_code );
         };
 #endif
@@ -350,7 +350,7 @@ namespace ceras
                                         arg_string_formater += std::string{", {}"};
                                 }
                                 std::string code_formater =  std::string{"auto {} = {}( "} + arg_string_formater +  std::string{" )( {} );"};
-                                self_expression_code.emplace_back( fmt::format( code_formater, self_expression_identity, self_expression.name(), args..., input_expression_name ) );
+                                self_expression_code.emplace_back( fmt::format( code_formater, self_expression_identity, self_expression.name(), serialize_argument( args )..., input_expression_name ) );
                                 return std::make_tuple( self_expression_identity, self_expression_code );
                             },
                             [=]<Expression Self_Expression, Expression LHS_Input_Expression, Expression RHS_Input_Expression>( Self_Expression const& self_expression, LHS_Input_Expression const& lhs_input_expression, RHS_Input_Expression const&  rhs_input_expression ) noexcept
@@ -367,7 +367,7 @@ namespace ceras
                                         arg_string_formater += std::string{", {}"};
                                 }
                                 std::string code_formater =  std::string{"auto {} = {}( "} + arg_string_formater +  std::string{" )( {}, {} );"};
-                                self_expression_code.emplace_back( fmt::format( code_formater, self_expression_identity, self_expression.name(), args..., lhs_input_expression_name, rhs_input_expression_name ) );
+                                self_expression_code.emplace_back( fmt::format( code_formater, self_expression_identity, self_expression.name(), serialize_argument( args )..., lhs_input_expression_name, rhs_input_expression_name ) );
                                 return std::make_tuple( self_expression_identity, self_expression_code );
                             }
                         );
@@ -717,7 +717,7 @@ namespace ceras
                                         auto const& [input_expression_name, input_expression_code] = serialize( input_expression );
                                         std::string unary_expression_identity = fmt::format( "unary_expression_{}_{}", unary_expression.name(), unary_expression.id() );
                                         std::vector<std::string> unary_expressioncode = input_expression_code;
-                                        unary_expressioncode.emplace_back( fmt::format( "auto {} = {} + {};", unary_expression_identity, input_expression_name, rhs_val ) );
+                                        unary_expressioncode.emplace_back( fmt::format( "auto {} = {} + {};", unary_expression_identity, input_expression_name, serialize_argument( rhs_val ) ) );
                                         return std::make_tuple( unary_expression_identity, unary_expressioncode );
                                     }
                 )( ex );
@@ -773,7 +773,7 @@ namespace ceras
                                         auto const& [input_expression_name, input_expression_code] = serialize( input_expression );
                                         std::string unary_expression_identity = fmt::format( "unary_expression_{}_{}", unary_expression.name(), unary_expression.id() );
                                         std::vector<std::string> unary_expressioncode = input_expression_code;
-                                        unary_expressioncode.emplace_back( fmt::format( "auto {} = {} * {};", unary_expression_identity, input_expression_name, rhs_val ) );
+                                        unary_expressioncode.emplace_back( fmt::format( "auto {} = {} * {};", unary_expression_identity, input_expression_name, serialize_argument( rhs_val ) ) );
                                         return std::make_tuple( unary_expression_identity, unary_expressioncode );
                                     }
                 )( ex );
@@ -4960,7 +4960,7 @@ namespace ceras
                                         auto const& [input_expression_name, input_expression_code] = serialize( input_expression );
                                         std::string const& self_expression_identity = fmt::format( "unary_expression_{}_{}", self_expression.name(), self_expression.id() );
                                         std::vector<std::string> self_expression_code = input_expression_code;
-                                        self_expression_code.emplace_back( fmt::format( "auto {} = {}( {}, {} );", self_expression_identity, self_expression.name(), input_expression_name, exponent ) );
+                                        self_expression_code.emplace_back( fmt::format( "auto {} = {}( {}, {} );", self_expression_identity, self_expression.name(), input_expression_name, serialize_argument( exponent ) ) );
                                         return std::make_tuple( self_expression_identity, self_expression_code );
                                     }
                 )( ex );
diff --git a/include/utils/enable_serializer.hpp b/include/utils/enable_serializer.hpp
index 95b88a9..e39aca8 100644
--- a/include/utils/enable_serializer.hpp
+++ b/include/utils/enable_serializer.hpp
@@ -7,6 +7,32 @@
 namespace ceras
 {
 
+    ///
+    /// Writes an argument of an operator as C++ code: strings are quoted, and floating point numbers and unsigned integers keep their types.
+    ///
+    template< typename T >
+    inline std::string serialize_argument( T const& arg )
+    {
+        if constexpr ( std::is_convertible_v<T, std::string> )
+        {
+            return fmt::format( "\"{}\"", arg );
+        }
+        else if constexpr ( std::is_floating_point_v<T> )
+        {
+            std::string ans = fmt::format( "{}", arg );
+            if ( ans.find_first_not_of( "+-0123456789" ) == std::string::npos ) ans += ".0";
+            return std::is_same_v<T, float> ? ans + "f" : ans;
+        }
+        else if constexpr ( std::is_same_v<T, unsigned long> )
+        {
+            return fmt::format( "{}UL", arg );
+        }
+        else
+        {
+            return fmt::format( "{}", arg );
+        }
+    }
+
     ///
     /// Appends the generated code of another operand, omitting the definitions that are already there (two operands can share expressions).
     ///
-- 
2.43.0


From ea13bae73f4dc1925bf1aad51d5d61ed49a07148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:53 +0000
Subject: [PATCH 59/85] fix: generated code called functions that do not exist,
 or left out their arguments

---
 include/activation.hpp |  2 +-
 include/loss.hpp       |  2 +-
 include/operation.hpp  | 44 ++++++++++++++++++++++++++++++++++++------
 3 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 2805197..8227783 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -519,7 +519,7 @@ namespace ceras
                                         for_each( ans.begin(), ans.end(), output.begin(), []( auto& a, auto o ){ a *= o; } );
                                         return ans;
                                     },
-                                    "exponentional"
+                                    "exponential"
                 )( ex );
     }
 
diff --git a/include/loss.hpp b/include/loss.hpp
index 3546833..1a3dfb8 100644
--- a/include/loss.hpp
+++ b/include/loss.hpp
@@ -129,7 +129,7 @@ namespace ceras
     template < Expression Lhs_Expression, Expression Rhs_Expression, std::floating_point F=float >
     auto constexpr cross_entropy_loss( Lhs_Expression const& lhs_ex, Rhs_Expression const& rhs_ex, F label_smoothing_factor=0.0 ) noexcept
     {
-        return make_binary_operator( cross_entropy_loss_context{}.make_forward( label_smoothing_factor ), cross_entropy_loss_context{}.make_backward( label_smoothing_factor ), "CrossEntropyLoss", []( std::vector<unsigned long> const&, std::vector<unsigned long> const& ) noexcept { return std::vector<unsigned long>{ {1,} }; } )( lhs_ex, rhs_ex );
+        return make_binary_operator( cross_entropy_loss_context{}.make_forward( label_smoothing_factor ), cross_entropy_loss_context{}.make_backward( label_smoothing_factor ), "cross_entropy_loss", []( std::vector<unsigned long> const&, std::vector<unsigned long> const& ) noexcept { return std::vector<unsigned long>{ {1,} }; }, make_trailing_argument_serializer( label_smoothing_factor ) )( lhs_ex, rhs_ex );
     }
 
     template < Expression Lhs_Expression, Expression Rhs_Expression >
diff --git a/include/operation.hpp b/include/operation.hpp
index 6ad5f70..c7ca87e 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -374,6 +374,24 @@ namespace ceras
     }
 
 
+    ///
+    /// Serializer for the binary operators taking their argument after the operands, `f( lhs, rhs, arg )`.
+    ///
+    template< typename Arg >
+    inline constexpr auto make_trailing_argument_serializer( Arg const& arg ) noexcept
+    {
+        return [=]<Expression Self_Expression, Expression LHS_Input_Expression, Expression RHS_Input_Expression>( Self_Expression const& self_expression, LHS_Input_Expression const& lhs_input_expression, RHS_Input_Expression const&  rhs_input_expression ) noexcept
+        {
+            auto const& [lhs_input_expression_name, lhs_input_expression_code] = serialize( lhs_input_expression );
+            auto const& [rhs_input_expression_name, rhs_input_expression_code] = serialize( rhs_input_expression );
+            std::string const& self_expression_identity = fmt::format( "binary_expression_{}_{}", self_expression.name(), self_expression.id() );
+            std::vector<std::string> self_expression_code = lhs_input_expression_code;
+            append_serialized_code( self_expression_code, rhs_input_expression_code );
+            self_expression_code.emplace_back( fmt::format( "auto {} = {}( {}, {}, {} );", self_expression_identity, self_expression.name(), lhs_input_expression_name, rhs_input_expression_name, serialize_argument( arg ) ) );
+            return std::make_tuple( self_expression_identity, self_expression_code );
+        };
+    }
+
     ///
     /// Generating the computation graph, in [graph description language](https://www.graphviz.org/documentation/).
     /// @param ex An expression.
@@ -1103,7 +1121,9 @@ namespace ceras
                                                            ans[idx];
                                             return ans;
                                         },
-                                        "clip"
+                                        "clip",
+                                        identity_output_shape_calculator{},
+                                        make_argumented_operator_serializer( lower, upper )
                     )( ex );
         };
     }
@@ -1852,7 +1872,7 @@ namespace ceras
 
                     return back_ans;
                 },
-                "conv2d_transpose_intermediate",
+                "conv2d_tranpose_intermediate",
                 shape_calculator,
                 make_argumented_operator_serializer( row_kernel, col_kernel, row_stride, col_stride, padding )
             )(ex);
@@ -2575,7 +2595,7 @@ namespace ceras
 
                 return std::make_tuple( l_ans, r_ans );
             },
-            "minmum"
+            "minimum"
         )( lhs_ex, rhs_ex );
     }
 
@@ -2725,7 +2745,9 @@ namespace ceras
                 std::fill( ans.begin(), ans.end(), value_type{0} );
                 return std::make_tuple( ans, ans );
             },
-            "equal"
+            "equal",
+            identity_output_shape_calculator{},
+            make_trailing_argument_serializer( threshold )
         )( lhs_ex, rhs_ex );
     }
 
@@ -3112,7 +3134,17 @@ namespace ceras
                         }
                         return ans;
                     },
-                    "detailed_sliding_2d"
+                    "detailed_sliding_2d",
+                    identity_output_shape_calculator{},
+                    [pixels]<Expression Self_Expression, Expression Input_Expression>( Self_Expression const& self_expression, Input_Expression const& input_expression ) noexcept
+                    { // serializer
+                        auto const& [input_expression_name, input_expression_code] = serialize( input_expression );
+                        std::string const& self_expression_identity = fmt::format( "unary_expression_{}_{}", self_expression.name(), self_expression.id() );
+                        std::vector<std::string> self_expression_code = input_expression_code;
+                        std::string const& cache = "std::make_shared<std::any>()";
+                        self_expression_code.emplace_back( fmt::format( "auto {} = {}( {}, {}, {}, {} )( {} );", self_expression_identity, self_expression.name(), serialize_argument( pixels ), cache, cache, cache, input_expression_name ) );
+                        return std::make_tuple( self_expression_identity, self_expression_code );
+                    }
                 )( ex );
             };
         }
@@ -3918,7 +3950,7 @@ namespace ceras
                                         for_each( input.begin(), input.end(), output.begin(), grad.begin(), ans.begin(), []( auto, auto o, auto g, auto& v ) noexcept { v = g / (3.0*o*o); } );
                                         return ans;
                                     },
-                                    "cbert"
+                                    "cbrt"
                 )( ex );
     };
 
-- 
2.43.0


From c5c48650c6f4fa070807c290a272442996377f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:53 +0000
Subject: [PATCH 60/85] fix: equal without a threshold did not compile

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index c7ca87e..a3cfe33 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2720,7 +2720,7 @@ namespace ceras
     /// auto eq = equal(l, r);
     /// @endcode
     ///
-    template< Expression Lhs_Expression, Expression Rhs_Expression, std::floating_point FP >
+    template< Expression Lhs_Expression, Expression Rhs_Expression, std::floating_point FP=float >
     auto equal( Lhs_Expression const& lhs_ex, Rhs_Expression const& rhs_ex, FP threshold=0.5 ) noexcept
     {
         std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-- 
2.43.0


From 9319fc6643b63538afe0f39b5da0eece66443750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:53 +0000
Subject: [PATCH 61/85] fix: code generated for a place holder forgot its shape

---
 include/place_holder.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/place_holder.hpp b/include/place_holder.hpp
index 4c8eb06..3673370 100644
--- a/include/place_holder.hpp
+++ b/include/place_holder.hpp
@@ -139,7 +139,14 @@ namespace ceras
         std::string const& ph_type = type2string<typename Ph::value_type>();
         std::string const& ph_name = fmt::format( "place_holder_{}", ph.id() );
         std::vector<std::string> ph_code;
-        ph_code.emplace_back( fmt::format( "ceras::place_holder<ceras::tensor<{}>> {};\n", ph_type, ph_name ) );
+        std::vector<unsigned long> const& ph_shape = ph.shape();
+        std::string ph_dims; // the constructor adds the batch size itself
+        for ( unsigned long idx = ( ph_shape[0] == -1UL ? 0UL : 1UL ); idx < ph_shape.size(); ++idx )
+            ph_dims += fmt::format( "{}UL, ", ph_shape[idx] );
+        if ( ph_shape.size() < 2 )
+            ph_code.emplace_back( fmt::format( "ceras::place_holder<ceras::tensor<{}>> {};", ph_type, ph_name ) );
+        else
+            ph_code.emplace_back( fmt::format( "ceras::place_holder<ceras::tensor<{}>> {}( std::vector<unsigned long>{} {}{} );", ph_type, ph_name, "{", ph_dims, "}" ) );
         return std::forward_as_tuple( ph_name, ph_code );
     }
 
-- 
2.43.0


From c88effcc5cc8d2b6c9b9943170eca93e2cd320e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:53 +0000
Subject: [PATCH 62/85] fix: tensors of different shapes sharing their data
 were stored in the same file by the generated code

---
 include/tensor.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tensor.hpp b/include/tensor.hpp
index 140c461..d1a665b 100644
--- a/include/tensor.hpp
+++ b/include/tensor.hpp
@@ -364,6 +364,7 @@ namespace ceras
             //(*this).shape_ = _new_shape;
             (*this).shape_.resize( _new_shape.size() );
             std::copy( _new_shape.begin(), _new_shape.end(), (*this).shape_.begin() );
+            (*this).id_ = generate_uid(); // not the same as the tensors it shares the data with any more
             return *this;
         }
 
-- 
2.43.0


From e63cb8e2790a21e9096f957a71813427ff340db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:53 +0000
Subject: [PATCH 63/85] fix: computation_graph repeated the nodes and the edges
 of shared sub-expressions

---
 include/operation.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index a3cfe33..e8665c5 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -419,9 +419,12 @@ namespace ceras
             return std::make_tuple( node, label );
         };
 
-        auto generate_dot = [&generate_node_and_label]<Expression Expr>( Expr const& expr, auto const& _generate_dot ) noexcept
+        std::vector<std::string> visited; // an expression can be the operand of several others
+        auto generate_dot = [&generate_node_and_label, &visited]<Expression Expr>( Expr const& expr, auto const& _generate_dot ) noexcept -> std::string
         {
             auto const& [node, label] = generate_node_and_label( expr );
+            if ( std::find( visited.begin(), visited.end(), node ) != visited.end() ) return std::string{};
+            visited.push_back( node );
             std::string const& expr_dot = node + std::string{" [label=\""} + label + std::string{"\"] ;\n"};
 
             if constexpr( is_unary_operator_v<Expr> )
-- 
2.43.0


From 91f73f928fd8a27df8b033d41db424ecba47b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:51 +0000
Subject: [PATCH 64/85] fix: poisson rounded the rates down to whole numbers

---
 include/tensor.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 3ad9727..c6bc189 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -858,7 +858,7 @@ namespace ceras
         Tsor ans{ tsor.shape() };
         for ( auto idx : range( ans.size() ) ) // Note: cannot parallel here
         {
-            long const v = static_cast<long>(tsor[idx]);
+            double const v = static_cast<double>(tsor[idx]);
             ans[idx] = distribution( random_generator, std::poisson_distribution<long>::param_type(v) );
         }
         return ans;
-- 
2.43.0


From 6d7c3f5da914feec800fdd88e290fe8dd9224c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:11 +0000
Subject: [PATCH 65/85] fix: assigning random_seed did not seed the random
 number generator

---
 include/tensor.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/tensor.hpp b/include/tensor.hpp
index d1a665b..5a76f66 100644
--- a/include/tensor.hpp
+++ b/include/tensor.hpp
@@ -20,6 +20,24 @@
 
 namespace ceras
 {
+    // static random number random_generator
+    static std::mt19937 random_generator;
+
+    struct random_seeder
+    {
+        std::mt19937& generator_;
+        unsigned long seed_;
+
+        random_seeder( std::mt19937& generator, unsigned long seed ) : generator_{ generator }, seed_{ seed } { generator_.seed( seed_ ); }
+        operator unsigned long() const noexcept { return seed_; }
+        random_seeder& operator = ( unsigned long seed )
+        {
+            seed_ = seed;
+            generator_.seed( seed_ );
+            return *this;
+        }
+    };
+
     ///
     /// @brief Random seed for the tensor library.
     ///
@@ -28,10 +46,7 @@ namespace ceras
     /// random_seed=42;
     /// \endcode
     ///
-    static unsigned long random_seed = std::chrono::system_clock::now().time_since_epoch().count();
-
-    // static random number random_generator
-    static std::mt19937 random_generator{random_seed};
+    static random_seeder random_seed{ random_generator, static_cast<unsigned long>( std::chrono::system_clock::now().time_since_epoch().count() ) };
 
     template< typename T >
     using default_allocator = cached_allocator<T>;
-- 
2.43.0


From 71720aeecac967cfc4a5ad1cd0cd22ab88b79fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:44 +0000
Subject: [PATCH 66/85] fix: constant 2-D views could not be walked over

---
 include/utils/view.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/utils/view.hpp b/include/utils/view.hpp
index cced0b7..23ec55f 100644
--- a/include/utils/view.hpp
+++ b/include/utils/view.hpp
@@ -67,6 +67,9 @@ namespace ceras
         constexpr const T* data() const noexcept { return data_; }
 
         constexpr T* begin() noexcept { return data_; }
+        constexpr T* end() noexcept { return begin()+size(); }
+
+        constexpr const T* begin() const noexcept { return data_; }
         constexpr const T* end() const noexcept { return begin()+size(); }
 
         constexpr unsigned long row() const noexcept { return row_; }
-- 
2.43.0


From d5e63473924aec7f6ebee38b939144547149eaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:44 +0000
Subject: [PATCH 67/85] fix: operator > of place holders was operator <

---
 include/place_holder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/place_holder.hpp b/include/place_holder.hpp
index 3673370..6fc413e 100644
--- a/include/place_holder.hpp
+++ b/include/place_holder.hpp
@@ -118,7 +118,7 @@ namespace ceras
     template< Place_Holder Ph >
     bool operator > ( Ph const& lhs, Ph const& rhs )
     {
-        return lhs.id() < rhs.id();
+        return lhs.id() > rhs.id();
     }
 
     template< Place_Holder Ph >
-- 
2.43.0


From 76d6c28c8fe63ac1ff08b76b23459a77fc536437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:44 +0000
Subject: [PATCH 68/85] fix: fmt::format replaced braces inside the text of the
 arguments

---
 include/utils/fmt.hpp | 75 ++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 41 deletions(-)

diff --git a/include/utils/fmt.hpp b/include/utils/fmt.hpp
index b4334ab..2ae0ac5 100644
--- a/include/utils/fmt.hpp
+++ b/include/utils/fmt.hpp
@@ -999,64 +999,57 @@ namespace fmt
             return ss.str();
         }
 
-        inline std::string replace_all(std::string const& orig, std::string_view what, std::string_view with)
+        /// handle cases with "{d+}"s, text of the arguments is not formatted again
+        inline std::string indexed_format( std::string const& format_string, std::vector<std::string> const& args )
         {
-            std::string ans = orig;
-            for (std::string::size_type pos{}; ans.npos != (pos = ans.find(what.data(), pos, what.length())); pos += with.length())
-                ans.replace(pos, what.length(), with.data(), with.length());
+            std::string ans;
+            for ( std::string::size_type pos{}; pos != format_string.size(); )
+            {
+                bool replaced = false;
+                if ( format_string[pos] == '{' )
+                {
+                    for ( unsigned long index = 0; index != args.size() && !replaced; ++index )
+                    {
+                        std::string const& what = std::string{"{"} + std::to_string(index) + std::string{"}"};
+                        if ( format_string.compare( pos, what.size(), what ) == 0 )
+                        {
+                            ans += args[index];
+                            pos += what.size();
+                            replaced = true;
+                        }
+                    }
+                }
+                if ( !replaced )
+                    ans += format_string[pos++];
+            }
             return ans;
         }
 
-        inline std::string replace_once(std::string const& orig, std::string_view what, std::string_view with)
+        /// handle cases with "{}"s, text of the arguments is not formatted again
+        inline std::string plain_format( std::string const& format_string, std::vector<std::string> const& args )
         {
-            std::string ans = orig;
-            for (std::string::size_type pos{}; ans.npos != (pos = ans.find(what.data(), pos, what.length())); pos += with.length())
+            std::string const what{ "{}" };
+            std::string ans = format_string;
+            std::string::size_type pos{};
+            for ( auto const& with : args )
             {
-                ans.replace(pos, what.length(), with.data(), with.length());
-                break;
+                pos = ans.find( what, pos );
+                if ( pos == ans.npos ) break;
+                ans.replace( pos, what.size(), with );
+                pos += with.size();
             }
             return ans;
         }
 
-        /// handle cases with "{d+}"s
-        inline std::string indexed_format( unsigned long, std::string const& format_string )
-        {
-            return format_string;
-        }
-
-        template< typename Arg, typename ... Args >
-        inline std::string indexed_format( unsigned long index, std::string const& format_string, Arg const& arg, Args const& ... args )
-        {
-            std::string const& what = std::string{"{"} + std::to_string(index) + std::string{"}"};
-            std::string const& with = to_string( arg );
-            std::string updated_format_string = replace_all( format_string, what, with );
-            return indexed_format( index+1, updated_format_string, args... );
-        }
-
-        /// handle cases with "{}"s
-        inline std::string plain_format( std::string const& format_string )
-        {
-            return format_string;
-        }
-
-        template< typename Arg, typename ... Args >
-        inline std::string plain_format( std::string const& format_string, Arg const& arg, Args const& ... args )
-        {
-            std::string const what{ "{}" };
-            std::string const& with = to_string( arg );
-            std::string updated_format_string = replace_once( format_string, what, with );
-            return plain_format( updated_format_string, args... );
-        }
-
     }// anonymous namespace
 
     template< typename ... Args >
     inline std::string format( std::string const& format_string, Args const& ... args )
     {
         if ( format_string.find( "{}" ) != std::string::npos )
-            return plain_format( format_string, args... );
+            return plain_format( format_string, std::vector<std::string>{ to_string( args )... } );
 
-        return indexed_format( 0UL, format_string, args... );
+        return indexed_format( format_string, std::vector<std::string>{ to_string( args )... } );
     }
 
 }//namespace fmt
-- 
2.43.0


From b0c80ed672090443b3108a158ce6b573fba3d1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:10 +0000
Subject: [PATCH 69/85] fix: fmt::format wrote a character after a control
 character

---
 include/utils/fmt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/fmt.hpp b/include/utils/fmt.hpp
index 2ae0ac5..25be1bd 100644
--- a/include/utils/fmt.hpp
+++ b/include/utils/fmt.hpp
@@ -840,7 +840,7 @@ namespace fmt
 
         inline std::string to_string( char ch ) noexcept
         {
-            return std::string{1, ch};
+            return std::string( 1, ch );
         }
 
         template< typename ... K >
-- 
2.43.0


From 567f8b3dd587eb0b683e3f62b2e10cdc1a071143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:10 +0000
Subject: [PATCH 70/85] fix: the move assignment of vector leaked the memory it
 held

---
 include/utils/vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/utils/vector.hpp b/include/utils/vector.hpp
index 4cec322..4f4d88b 100644
--- a/include/utils/vector.hpp
+++ b/include/utils/vector.hpp
@@ -33,6 +33,10 @@ namespace ceras
 
         constexpr vector& operator = ( vector && other ) noexcept
         {
+            if ( this == &other )
+                return *this;
+
+            clear();
             size_ = other.size_;
             data_ = other.data_;
             other.size_ = 0;
-- 
2.43.0


From 58fa585016211846af023e2f5725cb48fdb6e49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:10 +0000
Subject: [PATCH 71/85] fix: buffered_allocator allocated bytes times elements
 and released another count

---
 include/utils/buffered_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/buffered_allocator.hpp b/include/utils/buffered_allocator.hpp
index 1ea9200..1faf9f2 100644
--- a/include/utils/buffered_allocator.hpp
+++ b/include/utils/buffered_allocator.hpp
@@ -43,7 +43,7 @@ namespace ceras
             else // default heap allocation
             {
                 std::allocator<T> a;
-                return a.allocate( bytes );
+                return a.allocate( n );
             }
         }
 
-- 
2.43.0


From 2c2df81a9b6f547bd5d98c73cc7bdfc7741ded8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:10 +0000
Subject: [PATCH 72/85] fix: glob took the directory instead of the file name
 for hidden

---
 include/utils/3rd_party/glob.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/3rd_party/glob.hpp b/include/utils/3rd_party/glob.hpp
index e4d8fd5..700acc8 100644
--- a/include/utils/3rd_party/glob.hpp
+++ b/include/utils/3rd_party/glob.hpp
@@ -296,7 +296,7 @@ namespace glob
 
             for ( auto& x : names )
             {
-                if ( !is_hidden( x.string() ) )
+                if ( !is_hidden( x.filename().string() ) )
                 {
                     result.push_back( x );
 
@@ -336,7 +336,7 @@ namespace glob
 
             for ( auto& n : names )
             {
-                if ( !is_hidden( n.string() ) )
+                if ( !is_hidden( n.filename().string() ) )
                 {
                     filtered_names.push_back( n.filename() );
                 }
-- 
2.43.0


From 484e1e6101a6513bc92edd1a0fc4c3ef25e15f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:10 +0000
Subject: [PATCH 73/85] fix: float32 overflowed on literals of many digits

---
 include/utils/float32.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/float32.hpp b/include/utils/float32.hpp
index 00baf23..1adda19 100644
--- a/include/utils/float32.hpp
+++ b/include/utils/float32.hpp
@@ -13,7 +13,7 @@ namespace ceras
             auto const& isdigit = []( char c ) { return ( c >= '0' && c <= '9' ); };
             auto const& isspace = []( char c ) { return c == ' '; };
 
-            float a = 0.0;
+            double a = 0.0;
             int e = 0;
             int c;
             bool positive = true;
-- 
2.43.0


From f3d0b086c2926b838d8d22c0995dd1bf6e0e77d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:10 +0000
Subject: [PATCH 74/85] fix: lexical_cast to a string stopped at the first
 space

---
 include/utils/lexical_cast.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/utils/lexical_cast.hpp b/include/utils/lexical_cast.hpp
index 597d0ab..e1d4088 100644
--- a/include/utils/lexical_cast.hpp
+++ b/include/utils/lexical_cast.hpp
@@ -13,6 +13,10 @@ namespace ceras
 
         std::stringstream ss;
         ss << from;
+
+        if constexpr( std::is_same_v<T, std::string> )
+            return ss.str();
+
         ss >> var;
 
         return var;
-- 
2.43.0


From ba70f6956ac7ff6440399f1bbe097cd6128154ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:37 +0000
Subject: [PATCH 75/85] fix: truncated data sets were read past their ends or
 presented as complete

---
 include/dataset.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/dataset.hpp b/include/dataset.hpp
index 07f1abc..dc7c265 100644
--- a/include/dataset.hpp
+++ b/include/dataset.hpp
@@ -44,7 +44,9 @@ namespace ceras::dataset
             auto const& extract_image = []( std::vector<std::uint8_t> const& image_data )
             {
                 unsigned long const offset = 16;
-                unsigned long const samples = (image_data.size()-offset) / (28*28);
+                better_assert( image_data.size() >= offset, "Incomplete header of the images." );
+                unsigned long const samples = (static_cast<unsigned long>(image_data[4]) << 24) | (static_cast<unsigned long>(image_data[5]) << 16) | (static_cast<unsigned long>(image_data[6]) << 8) | static_cast<unsigned long>(image_data[7]);
+                better_assert( image_data.size() == offset + samples*28*28, "Expecting ", samples, " images of 28x28, but ", image_data.size()-offset, " bytes are present." );
                 tensor<std::uint8_t> ans{ {samples, 28UL, 28UL} };
                 std::copy( image_data.begin()+offset, image_data.end(), ans.data() );
                 return ans;
@@ -53,11 +55,16 @@ namespace ceras::dataset
             auto const& extract_label = []( std::vector<std::uint8_t> const& label_data )
             {
                 unsigned long const offset = 8;
-                unsigned long const samples = label_data.size() - offset;
+                better_assert( label_data.size() >= offset, "Incomplete header of the labels." );
+                unsigned long const samples = (static_cast<unsigned long>(label_data[4]) << 24) | (static_cast<unsigned long>(label_data[5]) << 16) | (static_cast<unsigned long>(label_data[6]) << 8) | static_cast<unsigned long>(label_data[7]);
+                better_assert( label_data.size() == offset + samples, "Expecting ", samples, " labels, but ", label_data.size()-offset, " are present." );
                 auto ans = zeros<std::uint8_t>({samples, 10});
                 auto ans_2d = matrix_view<std::uint8_t>{ ans.data(), samples, 10 };
                 for ( auto idx : range( samples ) )
+                {
+                    better_assert( label_data[idx+offset] < 10, "Expecting labels from 0 to 9, but got ", static_cast<int>(label_data[idx+offset]) );
                     ans_2d[idx][label_data[idx+offset]] = 1;
+                }
                 return ans;
             };
 
@@ -115,7 +122,9 @@ namespace ceras::dataset
             auto const& extract_image = []( std::vector<std::uint8_t> const& image_data )
             {
                 unsigned long const offset = 16;
-                unsigned long const samples = (image_data.size()-offset) / (28*28);
+                better_assert( image_data.size() >= offset, "Incomplete header of the images." );
+                unsigned long const samples = (static_cast<unsigned long>(image_data[4]) << 24) | (static_cast<unsigned long>(image_data[5]) << 16) | (static_cast<unsigned long>(image_data[6]) << 8) | static_cast<unsigned long>(image_data[7]);
+                better_assert( image_data.size() == offset + samples*28*28, "Expecting ", samples, " images of 28x28, but ", image_data.size()-offset, " bytes are present." );
                 tensor<std::uint8_t> ans{ {samples, 28UL, 28UL} };
                 std::copy( image_data.begin()+offset, image_data.end(), ans.data() );
                 return ans;
@@ -124,11 +133,16 @@ namespace ceras::dataset
             auto const& extract_label = []( std::vector<std::uint8_t> const& label_data )
             {
                 unsigned long const offset = 8;
-                unsigned long const samples = label_data.size() - offset;
+                better_assert( label_data.size() >= offset, "Incomplete header of the labels." );
+                unsigned long const samples = (static_cast<unsigned long>(label_data[4]) << 24) | (static_cast<unsigned long>(label_data[5]) << 16) | (static_cast<unsigned long>(label_data[6]) << 8) | static_cast<unsigned long>(label_data[7]);
+                better_assert( label_data.size() == offset + samples, "Expecting ", samples, " labels, but ", label_data.size()-offset, " are present." );
                 auto ans = zeros<std::uint8_t>({samples, 10});
                 auto ans_2d = matrix_view<std::uint8_t>{ ans.data(), samples, 10 };
                 for ( auto idx : range( samples ) )
+                {
+                    better_assert( label_data[idx+offset] < 10, "Expecting labels from 0 to 9, but got ", static_cast<int>(label_data[idx+offset]) );
                     ans_2d[idx][label_data[idx+offset]] = 1;
+                }
                 return ans;
             };
 
-- 
2.43.0


From 7328e4b032e7515df13f55ccdb8a2ea16faf5437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:29 +0000
Subject: [PATCH 76/85] fix: imresize read gray images of two dimensions past
 their ends

---
 include/utils/imageio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/imageio.hpp b/include/utils/imageio.hpp
index 025d1e8..0913116 100644
--- a/include/utils/imageio.hpp
+++ b/include/utils/imageio.hpp
@@ -20,7 +20,7 @@ namespace ceras::imageio
         }
         else
         {
-            stbir_resize_uint8( input_image.data(), input_shape[0], input_shape[1], 0, ans.data(), output_shape[0], output_shape[1], 0, 2 ); // gray
+            stbir_resize_uint8( input_image.data(), input_shape[0], input_shape[1], 0, ans.data(), output_shape[0], output_shape[1], 0, 1 ); // gray
         }
 
         return ans;
-- 
2.43.0


From 5a6db452dca5a8da5b08902552d08fbd09965697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:29 +0000
Subject: [PATCH 77/85] fix: imwrite threw on a path without an extension

---
 include/utils/imageio.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utils/imageio.hpp b/include/utils/imageio.hpp
index 0913116..aa337d0 100644
--- a/include/utils/imageio.hpp
+++ b/include/utils/imageio.hpp
@@ -52,7 +52,8 @@ namespace ceras::imageio
 
         // setting up extension
         std::string full_path = path;
-        std::string file_extension=full_path.substr(full_path.find_last_of('.'));
+        auto const dot = full_path.find_last_of('.');
+        std::string file_extension = dot == std::string::npos ? std::string{} : full_path.substr(dot);
         if ( file_extension.empty() )
         {
             full_path += std::string{".png"};
-- 
2.43.0


From 04f5bd00a6647e68be8f5ce296691b28b39c18b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:29 +0000
Subject: [PATCH 78/85] fix: imwrite read bytes as floats past the end of the
 image for hdr files

---
 include/utils/imageio.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/utils/imageio.hpp b/include/utils/imageio.hpp
index aa337d0..ed0c76f 100644
--- a/include/utils/imageio.hpp
+++ b/include/utils/imageio.hpp
@@ -73,7 +73,13 @@ namespace ceras::imageio
             return 0 != stbi_write_jpg( full_path.c_str(), w, h, ch, reinterpret_cast<const void*>( image.data() ), 100 );
 
         if ( file_extension == std::string{".hdr"} )
-            return 0 != stbi_write_hdr( full_path.c_str(), w, h, ch, reinterpret_cast<const float*>( image.data() ) );
+        {
+            std::uint8_t const* const pixels = reinterpret_cast<std::uint8_t const*>( image.data() );
+            std::vector<float> radiance( image.size() );
+            for ( auto idx : range( image.size() ) )
+                radiance[idx] = std::pow( pixels[idx] / 255.0f, 2.2f );
+            return 0 != stbi_write_hdr( full_path.c_str(), w, h, ch, radiance.data() );
+        }
 
         // reaching here, the extension is unknown, png is the last chance
         full_path += std::string{".png"};
-- 
2.43.0


From 9cae79e66d3f1ed4a7007289dfc173cca9352234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:00 +0000
Subject: [PATCH 79/85] fix: images were written through a buffer with an
 uninitialised fill count

---
 include/utils/3rd_party/stb_image_write.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/utils/3rd_party/stb_image_write.h b/include/utils/3rd_party/stb_image_write.h
index df4de33..f59782f 100644
--- a/include/utils/3rd_party/stb_image_write.h
+++ b/include/utils/3rd_party/stb_image_write.h
@@ -499,7 +499,7 @@ static int stbi_write_bmp_core(stbi__write_context *s, int x, int y, int comp, c
 
 STBIWDEF int stbi_write_bmp_to_func(stbi_write_func *func, void *context, int x, int y, int comp, const void *data)
 {
-   stbi__write_context s;// = {0};
+   stbi__write_context s = { 0 };
    stbi__start_write_callbacks(&s, func, context);
    return stbi_write_bmp_core(&s, x, y, comp, data);
 }
@@ -507,7 +507,7 @@ STBIWDEF int stbi_write_bmp_to_func(stbi_write_func *func, void *context, int x,
 #ifndef STBI_WRITE_NO_STDIO
 STBIWDEF int stbi_write_bmp(char const *filename, int x, int y, int comp, const void *data)
 {
-   stbi__write_context s;// = {0};
+   stbi__write_context s = { 0 };
    if (stbi__start_write_file(&s,filename)) {
       int r = stbi_write_bmp_core(&s, x, y, comp, data);
       stbi__end_write_file(&s);
@@ -598,7 +598,7 @@ static int stbi_write_tga_core(stbi__write_context *s, int x, int y, int comp, v
 
 STBIWDEF int stbi_write_tga_to_func(stbi_write_func *func, void *context, int x, int y, int comp, const void *data)
 {
-   stbi__write_context s;// = 0;
+   stbi__write_context s = { 0 };
    stbi__start_write_callbacks(&s, func, context);
    return stbi_write_tga_core(&s, x, y, comp, (void *) data);
 }
@@ -606,7 +606,7 @@ STBIWDEF int stbi_write_tga_to_func(stbi_write_func *func, void *context, int x,
 #ifndef STBI_WRITE_NO_STDIO
 STBIWDEF int stbi_write_tga(char const *filename, int x, int y, int comp, const void *data)
 {
-   stbi__write_context s;// = 0;
+   stbi__write_context s = { 0 };
    if (stbi__start_write_file(&s,filename)) {
       int r = stbi_write_tga_core(&s, x, y, comp, (void *) data);
       stbi__end_write_file(&s);
@@ -772,7 +772,7 @@ static int stbi_write_hdr_core(stbi__write_context *s, int x, int y, int comp, f
 
 STBIWDEF int stbi_write_hdr_to_func(stbi_write_func *func, void *context, int x, int y, int comp, const float *data)
 {
-   stbi__write_context s;// = 0;
+   stbi__write_context s = { 0 };
    stbi__start_write_callbacks(&s, func, context);
    return stbi_write_hdr_core(&s, x, y, comp, (float *) data);
 }
@@ -780,7 +780,7 @@ STBIWDEF int stbi_write_hdr_to_func(stbi_write_func *func, void *context, int x,
 #ifndef STBI_WRITE_NO_STDIO
 STBIWDEF int stbi_write_hdr(char const *filename, int x, int y, int comp, const float *data)
 {
-   stbi__write_context s;// = 0;
+   stbi__write_context s = { 0 };
    if (stbi__start_write_file(&s,filename)) {
       int r = stbi_write_hdr_core(&s, x, y, comp, (float *) data);
       stbi__end_write_file(&s);
@@ -1576,7 +1576,7 @@ static int stbi_write_jpg_core(stbi__write_context *s, int width, int height, in
 
 STBIWDEF int stbi_write_jpg_to_func(stbi_write_func *func, void *context, int x, int y, int comp, const void *data, int quality)
 {
-   stbi__write_context s;// = 0;
+   stbi__write_context s = { 0 };
    stbi__start_write_callbacks(&s, func, context);
    return stbi_write_jpg_core(&s, x, y, comp, (void *) data, quality);
 }
@@ -1585,7 +1585,7 @@ STBIWDEF int stbi_write_jpg_to_func(stbi_write_func *func, void *context, int x,
 #ifndef STBI_WRITE_NO_STDIO
 STBIWDEF int stbi_write_jpg(char const *filename, int x, int y, int comp, const void *data, int quality)
 {
-   stbi__write_context s;// = 0;
+   stbi__write_context s = { 0 };
    if (stbi__start_write_file(&s,filename)) {
       int r = stbi_write_jpg_core(&s, x, y, comp, data, quality);
       stbi__end_write_file(&s);
-- 
2.43.0


From e0ac2b472608774e54c850b4feff54bbb38a5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:56 +0000
Subject: [PATCH 80/85] fix: running an expression with ceras::run did not
 compile, it copied the session

---
 include/session.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/session.hpp b/include/session.hpp
index 812a06f..599fd13 100644
--- a/include/session.hpp
+++ b/include/session.hpp
@@ -237,7 +237,7 @@ namespace ceras
     auto run( Operation& op )
     {
         typedef typename Operation::tensor_type tensor_type;
-        auto ss = get_default_session<tensor_type>();
+        auto& ss = get_default_session<tensor_type>();
         return ss.run( op );
     }
 
-- 
2.43.0


From 879f5a47392d6d053078a38c840d4e37fa7b7861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:56 +0000
Subject: [PATCH 81/85] fix: session::tap did not compile

---
 include/session.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/session.hpp b/include/session.hpp
index 599fd13..335f949 100644
--- a/include/session.hpp
+++ b/include/session.hpp
@@ -65,7 +65,7 @@ namespace ceras
         // register variables associated to the op to this session
         // usually being called before restoring a session from a file
         template< typename Operation >
-        void tap( Operation& op ) const
+        void tap( Operation& op )
         {
             run( op );
         }
-- 
2.43.0


From 3b673839bbd5496c2ff9b849c41966d5814622d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:26 +0000
Subject: [PATCH 82/85] fix: ceras::reset returns the tensor it resets instead
 of failing to compile

---
 include/tensor.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index c6bc189..3dc7883 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -181,7 +181,7 @@ namespace ceras
     /// @brief Reset all emements in the tensor
     ///
     template< Tensor Tsor >
-    constexpr unsigned long reset( Tsor& tsor, typename Tsor::value_type val=0 ) noexcept
+    constexpr Tsor& reset( Tsor& tsor, typename Tsor::value_type val=0 ) noexcept
     {
         return tsor.reset( val );
     }
-- 
2.43.0


From b9a476b672039b19fbb38489d487fed978831d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:26 +0000
Subject: [PATCH 83/85] fix: ceras::front and ceras::back call no missing
 member function and return references

---
 include/tensor.tcc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 3dc7883..22563ef 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -113,36 +113,36 @@ namespace ceras
     /// @brief The reference to the first element in the tensor.
     ///
     template< Tensor Tsor >
-    constexpr auto front( Tsor& tsor ) noexcept
+    constexpr auto& front( Tsor& tsor ) noexcept
     {
-        return tsor.front();
+        return *tsor.begin();
     }
 
     ///
     /// @brief The reference to the first element in the tensor.
     ///
     template< Tensor Tsor >
-    constexpr auto front( Tsor const& tsor ) noexcept
+    constexpr auto& front( Tsor const& tsor ) noexcept
     {
-        return tsor.front();
+        return *tsor.begin();
     }
 
     ///
     /// @brief The reference to the last element in the tensor.
     ///
     template< Tensor Tsor >
-    constexpr auto back( Tsor& tsor ) noexcept
+    constexpr auto& back( Tsor& tsor ) noexcept
     {
-        return tsor.back();
+        return *( tsor.end() - 1 );
     }
 
     ///
     /// @brief The reference to the last element in the tensor.
     ///
     template< Tensor Tsor >
-    constexpr auto back( Tsor const& tsor ) noexcept
+    constexpr auto& back( Tsor const& tsor ) noexcept
     {
-        return tsor.back();
+        return *( tsor.end() - 1 );
     }
 
 
-- 
2.43.0


From eb57559e78ac37fa58e8f5fcdf966513fd857a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:26 +0000
Subject: [PATCH 84/85] fix: tensor::map stores the value of a function that
 returns one, as its documentation shows

---
 include/tensor.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/tensor.hpp b/include/tensor.hpp
index 5a76f66..7031a7d 100644
--- a/include/tensor.hpp
+++ b/include/tensor.hpp
@@ -416,7 +416,13 @@ namespace ceras
         template< typename Function >
         constexpr self_type& map( Function const& f )
         {
-            for_each( (*this).data(), (*this).data()+(*this).size(), [&f]( auto& v ){ f(v); } );
+            for_each( (*this).data(), (*this).data()+(*this).size(), [&f]( auto& v )
+            {
+                if constexpr ( std::is_convertible_v<std::invoke_result_t<Function const&, value_type&>, value_type> )
+                    v = f( v );
+                else
+                    f( v );
+            } );
             return *this;
         }
 
-- 
2.43.0


From 3ce8fc020e3676c375fb63d469ce92b0b1dc6d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:00 +0000
Subject: [PATCH 85/85] fix: an expression minus an unsigned number subtracted
 it modulo 2^n

---
 include/operation.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index e8665c5..ddf0539 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -753,7 +753,10 @@ namespace ceras
     template< Expression Ex, arithmetic A >
     auto constexpr operator - ( Ex const& ex, A const& rhs_val ) noexcept\
     {
-        return ex + (-rhs_val); // TODO: corner cases of unsigned integers
+        if constexpr ( std::is_unsigned_v<A> )
+            return ex + (-static_cast<double>( rhs_val )); // the negative of an unsigned integer would wrap around
+        else
+            return ex + (-rhs_val);
     }
 
     template< Expression Ex, arithmetic A >
-- 
2.43.0

