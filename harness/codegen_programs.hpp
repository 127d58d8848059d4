// the programs, in four parts that compile in parallel
#define F( f ) P( exact, return f( x ); )
#define L2( f ) P( exact, return f( y, v( { 2, 3 }, 0.2, 1.5 ) ); )
#if PART == 0
P( exact, return x; ) P( exact, return con( { 2, 3 } ) + x; ) P( exact, return x + p( { 2, 3 } ); ) P( exact, return elementwise_product( value<V>{ (V)0.1 }, x ); ) P( exact, return in( { 3 } )*v( { 3, 2 } ); )
P( exact, return x+y; ) P( exact, return x-y; ) P( exact, return x*v( { 3, 2 } ); ) P( exact, return x/y; ) P( exact, return -x; ) P( exact, return +x; ) P( exact, return minus( x, y ); ) P( exact, return plus( x, y ); ) P( exact, return multiply( x, v( { 3, 2 } ) ); ) P( exact, return divide( x, y ); ) P( exact, return negative( x ); ) P( exact, return inverse( y ); )
P( exact, auto s = tanh( x ); auto t = s; auto u = t+s; return u-t; ) P( exact, auto a = p( { 2, 3 } ); return elementwise_product( a, x )+elementwise_product( a, y ); )
P( exact, return expand_dims()( x ); ) P( exact, return expand_dims( 0 )( x ); ) P( exact, return expand_dims( 1 )( x ); ) P( exact, return squeeze( 1 )( v( { 2, 1, 3 } ) ); ) P( exact, return squeeze()( v( { 2, 3, 1 } ) ); ) P( no_gradient, return argmax( 1 )( x ); ) P( no_gradient, return argmin( 0 )( x ); ) P( no_gradient, return argmax()( x ); ) P( exact, return identity( x )+x; ) P( exact, return flip( 0 )( x ); ) P( exact, return flip( -1 )( x ); ) P( exact, return transpose( x ); ) P( exact, return broadcast( { 4, 2, 3 } )( x ); )
P( exact, return max_pooling_2d( 2 )( v( { 2, 4, 4, 2 } ) ); ) P( exact, return average_pooling_2d( 2 )( v( { 2, 4, 4, 2 } ) ); ) P( exact, return up_sampling_2d( 2 )( v( { 1, 2, 2, 2 } ) ); ) P( exact, return upsampling_2d( 3 )( v( { 1, 2, 1, 2 } ) ); ) P( exact, return zero_padding_2d( { 1 } )( v( { 1, 2, 2, 1 } ) ); ) P( exact, return zero_padding_2d( { 1, 2 } )( v( { 1, 2, 2, 1 } ) ); ) P( exact, return zero_padding_2d( { 1, 4, 2, 3 } )( v( { 1, 2, 2, 1 } ) ); ) P( exact, return cropping_2d( { 1 } )( v( { 1, 4, 4, 1 } ) ); ) P( exact, return cropping_2d( { 1, 3, 2, 1 } )( v( { 1, 6, 5, 1 } ) ); )
L2( mean_squared_logarithmic_error ) L2( squared_loss ) L2( mean_squared_error ) L2( mse ) L2( abs_loss ) L2( mean_absolute_error ) L2( mae ) L2( cross_entropy ) L2( hinge_loss ) L2( cross_entropy_loss )
P( exact, auto h = p( { 2, 3 } ); return MeanSquaredError()( x )( h ); ) P( exact, auto h = p( { 2, 3 } ); return CategoricalCrossentropy( 0.1f )( x )( h ); )
P( exact, auto i = in( { 3 } ); auto a = Dense( 3 )( i ); auto b = relu( a ); return Add()( a, leaky_relu( (V)0.1 )( Dense( 3 )( b ) ) ); )
#endif
#if PART == 1
P( no_gradient, return con( { 2, 3 } ); ) P( no_gradient, return p( { 2, 3 } ); ) P( no_gradient, return in( { 3, 2 } ); )
P( exact, TT t = fillt( { 2, 3 }, 4 ); TT u = t.deep_copy(); u.reset( 3 ); constant<TT> a{ t }; constant<TT> b{ u }; return a + b + x; )
P( exact, return elementwise_product( x, y ); ) P( exact, return elementwise_multiply( x, y ); ) P( exact, return hadamard_product( x, y ); ) P( exact, return x+v( { 3 } ); ) P( exact, return elementwise_product( x, v( { 1 } ) ); )
P( exact, return x+x; ) P( exact, auto s = square( x ); return s+s; ) P( exact, auto s = x+y; return elementwise_product( s, s*2.0f ); ) P( exact, auto s = square( x+y ); auto t = s-y; return elementwise_product( s, t )+t; ) P( exact, auto s = x*v( { 3, 3 } ); auto t = s*v( { 3, 3 } ); return concat( 1 )( s, t )+concat( 1 )( t, s ); ) P( exact, auto s = exp( x ); return reshape( { 6 }, false )( s/( s+1.0f ) )+reshape( { 6 }, false )( s ); )
P( exact, return concatenate( x, y )(); ) P( exact, return concatenate( x, y )( 0 ); ) P( exact, return concatenate( 1 )( x, y ); ) P( exact, return concat( x, y ); ) P( exact, return concat( 0 )( x, y ); ) P( exact, return repeat( 3 )( x ); ) P( exact, return repeat( 2, 0 )( x ); )
P( exact, return img2col( 2 )( v( { 2, 3, 3, 2 } ) ); ) P( exact, return img2col( 2, 3, 1, 0, 1, 2, 1, 1 )( v( { 2, 3, 4, 1 } ) ); ) P( exact, return conv2d( 4, 4, 1, 1, 1, 1, "same" )( in( { 4, 4, 2 } ), v( { 3, 3, 3, 2 } ) ); ) P( exact, return conv2d( 4, 5, 2, 1, 1, 1, "valid" )( in( { 4, 5, 1 } ), v( { 2, 2, 3, 1 } ) ); ) P( exact, return general_conv2d( 1, 1, 1, 1, "valid" )( in( { 3, 3, 1 } ), v( { 2, 2, 2, 1 } ) ); )
P( exact, return acos( x*0.25f ); ) P( exact, return acosh( y+1.0f ); ) P( exact, return asin( x*0.25f ); ) P( exact, return atanh( x*0.25f ); ) P( exact, return log( y ); ) P( exact, return log10( y ); ) P( exact, return log1p( y ); ) P( exact, return log2( y ); ) P( exact, return sqrt( y ); )
P( exact, return binary_cross_entropy_loss( p( { 2, 3 }, 0.1, 0.9 ), v( { 2, 3 }, 0.1, 0.9 ) ); ) P( exact, return cross_entropy_loss( p( { 2, 3 }, 0.1, 0.9 ), x, (V)0.25 ); )
P( training, return BatchNormalization( 0.9f )( in( { 3 } ) ); ) P( training, return BatchNormalization( { 3 }, 0.8f )( in( { 3 } ) ); ) P( exact, return Concatenate()( x, y ); ) P( exact, return Add()( x, y ); ) P( exact, return Subtract()( x, y ); ) P( exact, return Multiply()( x, y ); ) P( exact, return ReLU( x ); ) P( exact, return Softmax()( x ); ) P( exact, return LeakyReLU( (V)0.2 )( x ); ) P( exact, return ELU( (V)0.2 )( x ); ) P( exact, return Reshape( { 3, 1 } )( in( { 3 } ) )+v( { 3, 1 } ); ) P( exact, return Flatten()( v( { 2, 2, 2 } ) ); ) P( exact, return MaxPooling2D( 2 )( in( { 4, 4, 1 } ) )+v( { 2, 2, 1 } ); ) P( exact, return AveragePooling2D( 2 )( in( { 4, 4, 1 } ) )+v( { 2, 2, 1 } ); ) P( exact, return UpSampling2D( 2 )( in( { 2, 2, 1 } ) )+v( { 4, 4, 1 } ); ) P( exact, return Dropout( 0.5f )( x ); )
#endif
#if PART == 2
P( exact, variable<TT> r{ fillt( { 2, 3 }, 4 ), (V)1e-3, (V)0 }; l.vars.push_back( r ); return r + x; ) P( exact, variable<TT> r{ fillt( { 2, 3 }, 4 ), (V)0, (V)2.5e-2 }; l.vars.push_back( r ); return r + x; ) P( exact, variable<TT> r{ fillt( { 2, 3 }, 4 ), (V)0, (V)0, false }; l.vars.push_back( r ); return r + x; )
P( exact, return x+value<V>{ (V)0.25 }; ) P( exact, return value<V>{ (V)2 }-x; ) P( exact, return value<V>{ (V)-1.5 }*x; ) P( exact, return x*value<V>{ (V)1e-7 }; ) P( exact, return maximum( value<V>{ (V)0 }, x ); ) P( exact, return value{ 3.0 }+x; ) P( exact, return value{ 1e-12 }*x; )
P( exact, return sum_reduce( x ); ) P( exact, return reduce_sum( x ); ) P( exact, return mean_reduce( x ); ) P( exact, return reduce_mean( x ); ) P( exact, return mean( x ); ) P( exact, return reduce_sum( 0 )( x ); ) P( exact, return reduce_sum( 1 )( x ); ) P( exact, return reduce_sum( -1 )( x ); ) P( exact, return reduce_min( 0 )( x ); ) P( exact, return reduce_min( -1 )( x ); ) P( exact, return reduce_max( 1 )( x ); ) P( exact, return reduce_max()( x ); )
P( exact, return maximum( x, y ); ) P( exact, return minimum( x, y ); ) P( exact, return atan2( x, y ); ) P( exact, return ones_like( x )+x; ) P( exact, return zeros_like( x )+x; ) P( no_gradient, return equal( x, y ); ) P( no_gradient, return equal( x, y, 0.5 ); ) P( no_gradient, return equal( x, y, (V)1.5 ); ) P( exact, return sign( x )+x; ) P( exact, return assign( x, y ); ) P( exact, return pow( y, (V)2 ); ) P( exact, return pow( y, (V)0.3 ); ) P( exact, return pow( y, (V)-1 ); )
F( abs ) F( asinh ) F( atan ) F( cbrt ) F( ceil ) F( cos ) F( cosh ) F( erf ) F( erfc ) F( exp ) F( exp2 ) F( expm1 ) F( fabs ) F( floor ) F( llrint ) F( llround ) F( lrint ) F( lround ) F( nearbyint ) F( rint ) F( round ) F( sin ) F( sinh ) F( tan ) F( tanh ) F( trunc )
F( soft_sign ) F( unit_step ) F( binary_step ) F( gaussian ) F( softmax ) F( selu ) F( softplus ) F( softsign ) F( sigmoid ) F( relu ) F( relu6 ) F( negative_relu ) F( exponential ) F( hard_sigmoid ) F( gelu ) F( swish ) F( silu ) F( crelu ) F( tank_shrink ) F( mish ) F( lisht )
P( exact, return Dense( 2 )( in( { 3 } ) ); ) P( exact, return Dense( 2, false )( in( { 3 } ) ); ) P( exact, return relu( Dense( 2, true, 0.1f, 0.2f, 0.3f, 0.4f )( in( { 3 } ) ) ); ) P( exact, return Conv2D( 2, { 3, 3 }, "same" )( in( { 4, 4, 1 } ) ); ) P( exact, return Conv2D( 2, { 2, 2 }, "valid", { 1, 1 }, { 1, 1 }, false )( in( { 4, 3, 1 } ) ); ) P( exact, return Conv2DTranspose( 1, { 3, 3 }, "same" )( in( { 3, 3, 1 } ) ); ) P( exact, return Conv1D( 2, 2 )( in( { 4, 2 } ) ); )
#endif
#if PART == 3
P( exact, TT t = fillt( { 2, 3 }, 4 ); TT u = t; u.reshape( { 3, 2 } ); constant<TT> a{ t }; constant<TT> b{ u }; return a*b + v( { 2, 2 } ); )
P( exact, TT t = fillt( { 2, 3 }, 4 ); constant<TT> a{ t }; variable<TT> b{ t }; return elementwise_product( a, b ) + x; )
P( exact, return x+2; ) P( exact, return 2+x; ) P( exact, return x-2; ) P( exact, return 2-x; ) P( exact, return x*2; ) P( exact, return 2*x; ) P( exact, return x/4; ) P( exact, return 2/y; ) P( exact, return x+0.1; ) P( exact, return x*1e-9; ) P( exact, return x*(-2.5f); ) P( exact, return x-1e20f; ) P( exact, return x+(-1.0); ) P( exact, return x*3.0f; ) P( exact, return x+1e10f; )
P( exact, return square( x ); ) P( exact, return hypot( x, y ); ) P( exact, return clip( (V)-0.5, (V)0.75 )( x ); ) P( exact, return clip( (V)0.25 )( x ); ) P( exact, return clip( (V)-1, (V)1 )( x ); ) P( exact, return reshape( { 3, 2 }, false )( x ); ) P( exact, return reshape( { 3, 1 } )( x ); ) P( exact, return reshape( { 1, 3 }, true )( in( { 3 } ) )+v( { 1, 3 } ); ) P( exact, return flatten( v( { 2, 2, 3 } ) ); )
P( random_result|no_gradient, return random_normal_like( (V)1.0, (V)0.25 )( x ); ) P( random_result|no_gradient, return random_normal_like()( x ); ) P( random_result|no_gradient, return poisson( y ); )
P( exact, return conv2d_transpose( 2, 2 )( in( { 3, 3, 1 } ), v( { 1, 2, 2, 1 } ) ); ) P( exact, return conv2d_transpose( 2, 2, 2, 2, 1, 1, "same" )( in( { 3, 3, 1 } ), v( { 1, 3, 3, 1 } ) ); )
P( exact, return sliding_2d( 1 )( v( { 1, 3, 3, 2 } ) ); ) P( random_result|training|no_gradient, return sliding_2d( 2 )( v( { 1, 3, 3, 2 } ) ); ) P( exact, return dropout( (V)0.5 )( x ); ) P( random_result|training|no_gradient, return drop_out( (V)0.25 )( x ); ) P( training, return normalization_batch( (V)0.9 )( v( { 4, 3 } ) ); ) P( training, return batch_normalization( (V)0.5 )( v( { 4, 2 } ), v( { 2 } ), v( { 2 } ) ); )
P( exact, return heaviside_step( (V)0.5 )( x ); ) P( exact, return heaviside_step( (V)0.3 )( x ); ) P( exact, return leaky_relu( (V)0.3 )( x ); ) P( exact, return prelu( (V)0.125 )( x ); ) P( exact, return elu()( x ); ) P( exact, return elu( (V)0.7 )( x ); ) P( exact, return elu( (V)2 )( x ); )
P( exact, auto i = in( { 4, 4, 1 } ); auto a = relu( Conv2D( 2, { 3, 3 }, "same" )( i ) ); auto b = MaxPooling2D( 2 )( a ); auto d = Flatten()( b ); return Softmax()( Dense( 3 )( d ) ); )
#endif
#undef F
