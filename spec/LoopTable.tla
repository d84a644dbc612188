------------------------------ MODULE LoopTable ------------------------------
(* C21: the published type signatures, core dimensions and least core sizes.  *)
(* A type is its NumPy character.  A core dimension is a positive fixed size  *)
(* or the negative number of a variable.  (Written by tools/mktable.py.)      *)
EXTENDS Integers, Sequences

\* functions that share a table of loops <<types of inputs, types of outputs>>
Tables == <<
 [names |-> <<"abs_squared", "abssq", "rms">>,
  loops |-> <<<<<<"f">>, <<"f">>>>, <<<<"d">>, <<"d">>>>, <<<<"g">>, <<"g">>>>, <<<<"F">>, <<"f">>>>, <<<<"D">>, <<"d">>>>, <<<<"G">>, <<"g">>>>>>],
 [names |-> <<"all_same">>,
  loops |-> <<<<<<"b">>, <<"?">>>>, <<<<"B">>, <<"?">>>>, <<<<"h">>, <<"?">>>>, <<<<"H">>, <<"?">>>>, <<<<"i">>, <<"?">>>>, <<<<"I">>, <<"?">>>>, <<<<"l">>, <<"?">>>>, <<<<"L">>, <<"?">>>>, <<<<"f">>, <<"?">>>>, <<<<"d">>, <<"?">>>>, <<<<"g">>, <<"?">>>>, <<<<"O">>, <<"?">>>>>>],
 [names |-> <<"argfirst">>,
  loops |-> <<<<<<"b", "b", "b">>, <<"l">>>>, <<<<"B", "b", "B">>, <<"l">>>>, <<<<"h", "b", "h">>, <<"l">>>>, <<<<"H", "b", "H">>, <<"l">>>>, <<<<"i", "b", "i">>, <<"l">>>>, <<<<"I", "b", "I">>, <<"l">>>>, <<<<"l", "b", "l">>, <<"l">>>>, <<<<"L", "b", "L">>, <<"l">>>>, <<<<"f", "b", "f">>, <<"l">>>>, <<<<"d", "b", "d">>, <<"l">>>>, <<<<"g", "b", "g">>, <<"l">>>>, <<<<"O", "b", "O">>, <<"l">>>>>>],
 [names |-> <<"argmax", "argmin", "argminmax">>,
  loops |-> <<<<<<"b">>, <<"l">>>>, <<<<"B">>, <<"l">>>>, <<<<"h">>, <<"l">>>>, <<<<"H">>, <<"l">>>>, <<<<"i">>, <<"l">>>>, <<<<"I">>, <<"l">>>>, <<<<"l">>, <<"l">>>>, <<<<"L">>, <<"l">>>>, <<<<"q">>, <<"l">>>>, <<<<"Q">>, <<"l">>>>, <<<<"f">>, <<"l">>>>, <<<<"d">>, <<"l">>>>, <<<<"g">>, <<"l">>>>, <<<<"O">>, <<"l">>>>>>],
 [names |-> <<"backlash", "deadzone", "hypot3", "pmeanw">>,
  loops |-> <<<<<<"f", "f", "f">>, <<"f">>>>, <<<<"d", "d", "d">>, <<"d">>>>, <<<<"g", "g", "g">>, <<"g">>>>>>],
 [names |-> <<"backlash_sum">>,
  loops |-> <<<<<<"f", "f", "f", "f">>, <<"f", "f">>>>, <<<<"d", "d", "d", "d">>, <<"d", "d">>>>, <<<<"g", "g", "g", "g">>, <<"g", "g">>>>>>],
 [names |-> <<"cross2", "cross3">>,
  loops |-> <<<<<<"i", "i">>, <<"i">>>>, <<<<"l", "l">>, <<"l">>>>, <<<<"f", "f">>, <<"f">>>>, <<<<"d", "d">>, <<"d">>>>, <<<<"g", "g">>, <<"g">>>>, <<<<"O", "O">>, <<"O">>>>>>],
 [names |-> <<"debye1", "loggamma1p">>,
  loops |-> <<<<<<"f">>, <<"f">>>>, <<<<"d">>, <<"d">>>>>>],
 [names |-> <<"expint1", "fillnan1d", "gmean", "hmean", "kbnsum", "log_logistic", "logexpint1", "logistic", "logistic_deriv", "multivariate_logbeta", "next_greater", "next_less", "softmax", "tri_area", "erfcx", "normal.cdf", "normal.logcdf", "normal.logsf", "normal.sf", "nextn_greater", "nextn_less">>,
  loops |-> <<<<<<"f">>, <<"f">>>>, <<<<"d">>, <<"d">>>>, <<<<"g">>, <<"g">>>>>>],
 [names |-> <<"exponential_ramp", "gmeanw", "hmeanw", "hyperbolic_ramp", "inv_yeo_johnson", "nan_to_num", "pmean", "pow1pm1", "sosfilter", "swish", "unwrap", "vdot", "yeo_johnson">>,
  loops |-> <<<<<<"f", "f">>, <<"f">>>>, <<<<"d", "d">>, <<"d">>>>, <<<<"g", "g">>, <<"g">>>>>>],
 [names |-> <<"first">>,
  loops |-> <<<<<<"b", "b", "b", "b">>, <<"b">>>>, <<<<"B", "b", "B", "B">>, <<"B">>>>, <<<<"h", "b", "h", "h">>, <<"h">>>>, <<<<"H", "b", "H", "H">>, <<"H">>>>, <<<<"i", "b", "i", "i">>, <<"i">>>>, <<<<"I", "b", "I", "I">>, <<"I">>>>, <<<<"l", "b", "l", "l">>, <<"l">>>>, <<<<"L", "b", "L", "L">>, <<"L">>>>, <<<<"f", "b", "f", "f">>, <<"f">>>>, <<<<"d", "b", "d", "d">>, <<"d">>>>, <<<<"g", "b", "g", "g">>, <<"g">>>>, <<<<"O", "b", "O", "O">>, <<"O">>>>>>],
 [names |-> <<"gini", "mad", "rmad">>,
  loops |-> <<<<<<"f", "?">>, <<"f">>>>, <<<<"d", "?">>, <<"d">>>>, <<<<"g", "?">>, <<"g">>>>>>],
 [names |-> <<"hysteresis_relay", "trapezoid_pulse">>,
  loops |-> <<<<<<"f", "f", "f", "f", "f", "f">>, <<"f">>>>, <<<<"d", "d", "d", "d", "d", "d">>, <<"d">>>>, <<<<"g", "g", "g", "g", "g", "g">>, <<"g">>>>>>],
 [names |-> <<"invsmoothstep3", "linearstep", "smoothstep3", "smoothstep5", "step">>,
  loops |-> <<<<<<"f", "f", "f", "f", "f">>, <<"f">>>>, <<<<"d", "d", "d", "d", "d">>, <<"d">>>>, <<<<"g", "g", "g", "g", "g">>, <<"g">>>>>>],
 [names |-> <<"issnan">>,
  loops |-> <<<<<<"e">>, <<"?">>>>, <<<<"f">>, <<"?">>>>, <<<<"d">>, <<"?">>>>>>],
 [names |-> <<"linear_interp1d">>,
  loops |-> <<<<<<"f", "f", "f">>, <<"f">>>>, <<<<"d", "d", "d">>, <<"d">>>>>>],
 [names |-> <<"log1p_doubledouble", "log1p_theorem4">>,
  loops |-> <<<<<<"F">>, <<"F">>>>, <<<<"D">>, <<"D">>>>>>],
 [names |-> <<"logfactorial">>,
  loops |-> <<<<<<"i">>, <<"d">>>>, <<<<"l">>, <<"d">>>>>>],
 [names |-> <<"max_argmax", "min_argmin">>,
  loops |-> <<<<<<"b">>, <<"b", "l">>>>, <<<<"B">>, <<"B", "l">>>>, <<<<"h">>, <<"h", "l">>>>, <<<<"H">>, <<"H", "l">>>>, <<<<"i">>, <<"i", "l">>>>, <<<<"I">>, <<"I", "l">>>>, <<<<"l">>, <<"l", "l">>>>, <<<<"L">>, <<"L", "l">>>>, <<<<"q">>, <<"q", "l">>>>, <<<<"Q">>, <<"Q", "l">>>>, <<<<"f">>, <<"f", "l">>>>, <<<<"d">>, <<"d", "l">>>>, <<<<"g">>, <<"g", "l">>>>, <<<<"O">>, <<"O", "l">>>>>>],
 [names |-> <<"meanvar">>,
  loops |-> <<<<<<"b", "l">>, <<"d">>>>, <<<<"B", "l">>, <<"d">>>>, <<<<"h", "l">>, <<"d">>>>, <<<<"H", "l">>, <<"d">>>>, <<<<"i", "l">>, <<"d">>>>, <<<<"I", "l">>, <<"d">>>>, <<<<"l", "l">>, <<"d">>>>, <<<<"L", "l">>, <<"d">>>>, <<<<"f", "l">>, <<"f">>>>, <<<<"d", "l">>, <<"d">>>>, <<<<"g", "l">>, <<"g">>>>>>],
 [names |-> <<"minmax">>,
  loops |-> <<<<<<"b">>, <<"b">>>>, <<<<"B">>, <<"B">>>>, <<<<"h">>, <<"h">>>>, <<<<"H">>, <<"H">>>>, <<<<"i">>, <<"i">>>>, <<<<"I">>, <<"I">>>>, <<<<"l">>, <<"l">>>>, <<<<"L">>, <<"L">>>>, <<<<"q">>, <<"q">>>>, <<<<"Q">>, <<"Q">>>>, <<<<"f">>, <<"f">>>>, <<<<"d">>, <<"d">>>>, <<<<"g">>, <<"g">>>>, <<<<"O">>, <<"O">>>>>>],
 [names |-> <<"ordered">>,
  loops |-> <<<<<<"b", "b">>, <<"?">>>>, <<<<"B", "b">>, <<"?">>>>, <<<<"h", "b">>, <<"?">>>>, <<<<"H", "b">>, <<"?">>>>, <<<<"i", "b">>, <<"?">>>>, <<<<"I", "b">>, <<"?">>>>, <<<<"l", "b">>, <<"?">>>>, <<<<"L", "b">>, <<"?">>>>, <<<<"f", "b">>, <<"?">>>>, <<<<"d", "b">>, <<"?">>>>, <<<<"g", "b">>, <<"?">>>>, <<<<"O", "b">>, <<"?">>>>>>],
 [names |-> <<"peaktopeak">>,
  loops |-> <<<<<<"b">>, <<"B">>>>, <<<<"B">>, <<"B">>>>, <<<<"h">>, <<"H">>>>, <<<<"H">>, <<"H">>>>, <<<<"i">>, <<"I">>>>, <<<<"I">>, <<"I">>>>, <<<<"l">>, <<"L">>>>, <<<<"L">>, <<"L">>>>, <<<<"f">>, <<"f">>>>, <<<<"d">>, <<"d">>>>, <<<<"g">>, <<"g">>>>, <<<<"O">>, <<"O">>>>>>],
 [names |-> <<"pearson_corr">>,
  loops |-> <<<<<<"b", "b">>, <<"d">>>>, <<<<"B", "B">>, <<"d">>>>, <<<<"h", "h">>, <<"d">>>>, <<<<"H", "H">>, <<"d">>>>, <<<<"i", "i">>, <<"d">>>>, <<<<"I", "I">>, <<"d">>>>, <<<<"l", "l">>, <<"d">>>>, <<<<"L", "L">>, <<"d">>>>, <<<<"f", "f">>, <<"f">>>>, <<<<"d", "d">>, <<"d">>>>, <<<<"g", "g">>, <<"g">>>>>>],
 [names |-> <<"percentileofscore">>,
  loops |-> <<<<<<"b", "b", "l">>, <<"d">>>>, <<<<"B", "B", "l">>, <<"d">>>>, <<<<"h", "h", "l">>, <<"d">>>>, <<<<"H", "H", "l">>, <<"d">>>>, <<<<"i", "i", "l">>, <<"d">>>>, <<<<"I", "I", "l">>, <<"d">>>>, <<<<"l", "l", "l">>, <<"d">>>>, <<<<"L", "L", "l">>, <<"d">>>>, <<<<"f", "f", "l">>, <<"d">>>>, <<<<"d", "d", "l">>, <<"d">>>>>>],
 [names |-> <<"searchsortedl", "searchsortedr">>,
  loops |-> <<<<<<"b", "b">>, <<"l">>>>, <<<<"B", "B">>, <<"l">>>>, <<<<"h", "h">>, <<"l">>>>, <<<<"H", "H">>, <<"l">>>>, <<<<"i", "i">>, <<"l">>>>, <<<<"I", "I">>, <<"l">>>>, <<<<"l", "l">>, <<"l">>>>, <<<<"L", "L">>, <<"l">>>>, <<<<"e", "e">>, <<"l">>>>, <<<<"f", "f">>, <<"l">>>>, <<<<"d", "d">>, <<"l">>>>, <<<<"g", "g">>, <<"l">>>>, <<<<"O", "O">>, <<"l">>>>>>],
 [names |-> <<"sosfilter_ic", "sosfilter_ic_contig">>,
  loops |-> <<<<<<"f", "f", "f">>, <<"f", "f">>>>, <<<<"d", "d", "d">>, <<"d", "d">>>>, <<<<"g", "g", "g">>, <<"g", "g">>>>>>],
 [names |-> <<"tri_area_indexed">>,
  loops |-> <<<<<<"f", "l">>, <<"f">>>>, <<<<"d", "l">>, <<"d">>>>, <<<<"g", "l">>, <<"g">>>>>>],
 [names |-> <<"vnorm">>,
  loops |-> <<<<<<"f", "f">>, <<"f">>>>, <<<<"d", "d">>, <<"d">>>>, <<<<"g", "g">>, <<"g">>>>, <<<<"F", "f">>, <<"f">>>>, <<<<"D", "d">>, <<"d">>>>, <<<<"G", "g">>, <<"g">>>>>>],
 [names |-> <<"wjaccard">>,
  loops |-> <<<<<<"b", "b">>, <<"d">>>>, <<<<"B", "B">>, <<"d">>>>, <<<<"h", "h">>, <<"d">>>>, <<<<"H", "H">>, <<"d">>>>, <<<<"i", "i">>, <<"d">>>>, <<<<"I", "I">>, <<"d">>>>, <<<<"l", "l">>, <<"d">>>>, <<<<"L", "L">>, <<"d">>>>, <<<<"f", "f">>, <<"f">>>>, <<<<"d", "d">>, <<"d">>>>>>],
 [names |-> <<"semivar.exponential", "semivar.linear", "semivar.parabolic", "semivar.spherical">>,
  loops |-> <<<<<<"f", "f", "f", "f">>, <<"f">>>>, <<<<"d", "d", "d", "d">>, <<"d">>>>, <<<<"g", "g", "g", "g">>, <<"g">>>>>>],
 [names |-> <<"bincount">>,
  loops |-> <<<<<<"b">>, <<"l">>>>, <<<<"B">>, <<"l">>>>, <<<<"h">>, <<"l">>>>, <<<<"H">>, <<"l">>>>, <<<<"i">>, <<"l">>>>, <<<<"I">>, <<"l">>>>, <<<<"l">>, <<"l">>>>, <<<<"L">>, <<"l">>>>>>],
 [names |-> <<"bincountw">>,
  loops |-> <<<<<<"b", "b">>, <<"b">>>>, <<<<"b", "B">>, <<"B">>>>, <<<<"b", "h">>, <<"h">>>>, <<<<"b", "H">>, <<"H">>>>, <<<<"b", "i">>, <<"i">>>>, <<<<"b", "I">>, <<"I">>>>, <<<<"b", "l">>, <<"l">>>>, <<<<"b", "L">>, <<"L">>>>, <<<<"b", "f">>, <<"f">>>>, <<<<"b", "d">>, <<"d">>>>, <<<<"B", "b">>, <<"b">>>>, <<<<"B", "B">>, <<"B">>>>, <<<<"B", "h">>, <<"h">>>>, <<<<"B", "H">>, <<"H">>>>, <<<<"B", "i">>, <<"i">>>>, <<<<"B", "I">>, <<"I">>>>, <<<<"B", "l">>, <<"l">>>>, <<<<"B", "L">>, <<"L">>>>, <<<<"B", "f">>, <<"f">>>>, <<<<"B", "d">>, <<"d">>>>, <<<<"h", "b">>, <<"b">>>>, <<<<"h", "B">>, <<"B">>>>, <<<<"h", "h">>, <<"h">>>>, <<<<"h", "H">>, <<"H">>>>, <<<<"h", "i">>, <<"i">>>>, <<<<"h", "I">>, <<"I">>>>, <<<<"h", "l">>, <<"l">>>>, <<<<"h", "L">>, <<"L">>>>, <<<<"h", "f">>, <<"f">>>>, <<<<"h", "d">>, <<"d">>>>, <<<<"H", "b">>, <<"b">>>>, <<<<"H", "B">>, <<"B">>>>, <<<<"H", "h">>, <<"h">>>>, <<<<"H", "H">>, <<"H">>>>, <<<<"H", "i">>, <<"i">>>>, <<<<"H", "I">>, <<"I">>>>, <<<<"H", "l">>, <<"l">>>>, <<<<"H", "L">>, <<"L">>>>, <<<<"H", "f">>, <<"f">>>>, <<<<"H", "d">>, <<"d">>>>, <<<<"i", "b">>, <<"b">>>>, <<<<"i", "B">>, <<"B">>>>, <<<<"i", "h">>, <<"h">>>>, <<<<"i", "H">>, <<"H">>>>, <<<<"i", "i">>, <<"i">>>>, <<<<"i", "I">>, <<"I">>>>, <<<<"i", "l">>, <<"l">>>>, <<<<"i", "L">>, <<"L">>>>, <<<<"i", "f">>, <<"f">>>>, <<<<"i", "d">>, <<"d">>>>, <<<<"I", "b">>, <<"b">>>>, <<<<"I", "B">>, <<"B">>>>, <<<<"I", "h">>, <<"h">>>>, <<<<"I", "H">>, <<"H">>>>, <<<<"I", "i">>, <<"i">>>>, <<<<"I", "I">>, <<"I">>>>, <<<<"I", "l">>, <<"l">>>>, <<<<"I", "L">>, <<"L">>>>, <<<<"I", "f">>, <<"f">>>>, <<<<"I", "d">>, <<"d">>>>, <<<<"l", "b">>, <<"b">>>>, <<<<"l", "B">>, <<"B">>>>, <<<<"l", "h">>, <<"h">>>>, <<<<"l", "H">>, <<"H">>>>, <<<<"l", "i">>, <<"i">>>>, <<<<"l", "I">>, <<"I">>>>, <<<<"l", "l">>, <<"l">>>>, <<<<"l", "L">>, <<"L">>>>, <<<<"l", "f">>, <<"f">>>>, <<<<"l", "d">>, <<"d">>>>, <<<<"L", "b">>, <<"b">>>>, <<<<"L", "B">>, <<"B">>>>, <<<<"L", "h">>, <<"h">>>>, <<<<"L", "H">>, <<"H">>>>, <<<<"L", "i">>, <<"i">>>>, <<<<"L", "I">>, <<"I">>>>, <<<<"L", "l">>, <<"l">>>>, <<<<"L", "L">>, <<"L">>>>, <<<<"L", "f">>, <<"f">>>>, <<<<"L", "d">>, <<"d">>>>, <<<<"b", "F">>, <<"F">>>>, <<<<"b", "D">>, <<"D">>>>, <<<<"B", "F">>, <<"F">>>>, <<<<"B", "D">>, <<"D">>>>, <<<<"h", "F">>, <<"F">>>>, <<<<"h", "D">>, <<"D">>>>, <<<<"H", "F">>, <<"F">>>>, <<<<"H", "D">>, <<"D">>>>, <<<<"i", "F">>, <<"F">>>>, <<<<"i", "D">>, <<"D">>>>, <<<<"I", "F">>, <<"F">>>>, <<<<"I", "D">>, <<"D">>>>, <<<<"l", "F">>, <<"F">>>>, <<<<"l", "D">>, <<"D">>>>, <<<<"L", "F">>, <<"F">>>>, <<<<"L", "D">>, <<"D">>>>>>],
 [names |-> <<"convert_to_base">>,
  loops |-> <<<<<<"b", "b">>, <<"b">>>>, <<<<"B", "B">>, <<"B">>>>, <<<<"h", "h">>, <<"h">>>>, <<<<"H", "H">>, <<"H">>>>, <<<<"i", "i">>, <<"i">>>>, <<<<"I", "I">>, <<"I">>>>, <<<<"l", "l">>, <<"l">>>>, <<<<"L", "L">>, <<"L">>>>>>],
 [names |-> <<"one_hot">>,
  loops |-> <<<<<<"b">>, <<"l">>>>, <<<<"B">>, <<"l">>>>, <<<<"h">>, <<"l">>>>, <<<<"H">>, <<"l">>>>, <<<<"i">>, <<"l">>>>, <<<<"I">>, <<"l">>>>, <<<<"l">>, <<"l">>>>, <<<<"L">>, <<"l">>>>, <<<<"q">>, <<"l">>>>, <<<<"Q">>, <<"l">>>>>>]
>>

\* functions that share core dimensions of inputs and outputs; least: the least size of the variables
Signatures == <<
 [names |-> <<"abs_squared", "abssq", "debye1", "expint1", "issnan", "log1p_doubledouble", "log1p_theorem4", "log_logistic", "logexpint1", "logfactorial", "loggamma1p", "logistic", "logistic_deriv", "next_greater", "next_less", "erfcx", "normal.cdf", "normal.logcdf", "normal.logsf", "normal.sf">>,
  cin |-> <<<<>>>>, cout |-> <<<<>>>>, least |-> 0],
 [names |-> <<"all_same", "kbnsum", "multivariate_logbeta">>,
  cin |-> <<<<-1>>>>, cout |-> <<<<>>>>, least |-> 0],
 [names |-> <<"argfirst", "percentileofscore">>,
  cin |-> <<<<-1>>, <<>>, <<>>>>, cout |-> <<<<>>>>, least |-> 0],
 [names |-> <<"argmax", "argmin", "gmean", "hmean", "peaktopeak", "rms">>,
  cin |-> <<<<-1>>>>, cout |-> <<<<>>>>, least |-> 1],
 [names |-> <<"argminmax", "minmax">>,
  cin |-> <<<<-1>>>>, cout |-> <<<<2>>>>, least |-> 1],
 [names |-> <<"backlash">>,
  cin |-> <<<<-1>>, <<>>, <<>>>>, cout |-> <<<<-1>>>>, least |-> 0],
 [names |-> <<"backlash_sum">>,
  cin |-> <<<<-1>>, <<-2>>, <<-2>>, <<-2>>>>, cout |-> <<<<-1>>, <<-2>>>>, least |-> 0],
 [names |-> <<"cross2">>,
  cin |-> <<<<2>>, <<2>>>>, cout |-> <<<<>>>>, least |-> 0],
 [names |-> <<"cross3">>,
  cin |-> <<<<3>>, <<3>>>>, cout |-> <<<<3>>>>, least |-> 0],
 [names |-> <<"deadzone", "hypot3">>,
  cin |-> <<<<>>, <<>>, <<>>>>, cout |-> <<<<>>>>, least |-> 0],
 [names |-> <<"exponential_ramp", "hyperbolic_ramp", "inv_yeo_johnson", "nan_to_num", "pow1pm1", "swish", "yeo_johnson">>,
  cin |-> <<<<>>, <<>>>>, cout |-> <<<<>>>>, least |-> 0],
 [names |-> <<"fillnan1d", "softmax">>,
  cin |-> <<<<-1>>>>, cout |-> <<<<-1>>>>, least |-> 0],
 [names |-> <<"first">>,
  cin |-> <<<<-1>>, <<>>, <<>>, <<>>>>, cout |-> <<<<>>>>, least |-> 0],
 [names |-> <<"gini", "mad", "pmean", "rmad">>,
  cin |-> <<<<-1>>, <<>>>>, cout |-> <<<<>>>>, least |-> 1],
 [names |-> <<"gmeanw", "hmeanw", "wjaccard">>,
  cin |-> <<<<-1>>, <<-1>>>>, cout |-> <<<<>>>>, least |-> 1],
 [names |-> <<"hysteresis_relay">>,
  cin |-> <<<<-1>>, <<>>, <<>>, <<>>, <<>>, <<>>>>, cout |-> <<<<-1>>>>, least |-> 0],
 [names |-> <<"invsmoothstep3", "linearstep", "smoothstep3", "smoothstep5", "step">>,
  cin |-> <<<<>>, <<>>, <<>>, <<>>, <<>>>>, cout |-> <<<<>>>>, least |-> 0],
 [names |-> <<"linear_interp1d">>,
  cin |-> <<<<>>, <<-1>>, <<-1>>>>, cout |-> <<<<>>>>, least |-> 0],
 [names |-> <<"max_argmax", "min_argmin">>,
  cin |-> <<<<-1>>>>, cout |-> <<<<>>, <<>>>>, least |-> 1],
 [names |-> <<"meanvar">>,
  cin |-> <<<<-1>>, <<>>>>, cout |-> <<<<2>>>>, least |-> 1],
 [names |-> <<"ordered", "searchsortedl", "searchsortedr", "vnorm">>,
  cin |-> <<<<-1>>, <<>>>>, cout |-> <<<<>>>>, least |-> 0],
 [names |-> <<"pearson_corr">>,
  cin |-> <<<<-1>>, <<-1>>>>, cout |-> <<<<>>>>, least |-> 2],
 [names |-> <<"pmeanw">>,
  cin |-> <<<<-1>>, <<-1>>, <<>>>>, cout |-> <<<<>>>>, least |-> 1],
 [names |-> <<"sosfilter">>,
  cin |-> <<<<-1, 6>>, <<-2>>>>, cout |-> <<<<-2>>>>, least |-> 0],
 [names |-> <<"sosfilter_ic", "sosfilter_ic_contig">>,
  cin |-> <<<<-1, 6>>, <<-2>>, <<-1, 2>>>>, cout |-> <<<<-2>>, <<-1, 2>>>>, least |-> 0],
 [names |-> <<"trapezoid_pulse">>,
  cin |-> <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>>>, cout |-> <<<<>>>>, least |-> 0],
 [names |-> <<"tri_area">>,
  cin |-> <<<<3, -1>>>>, cout |-> <<<<>>>>, least |-> 0],
 [names |-> <<"tri_area_indexed">>,
  cin |-> <<<<-1, -2>>, <<3>>>>, cout |-> <<<<>>>>, least |-> 0],
 [names |-> <<"unwrap">>,
  cin |-> <<<<-1>>, <<>>>>, cout |-> <<<<-1>>>>, least |-> 0],
 [names |-> <<"vdot">>,
  cin |-> <<<<-1>>, <<-1>>>>, cout |-> <<<<>>>>, least |-> 0],
 [names |-> <<"semivar.exponential", "semivar.linear", "semivar.parabolic", "semivar.spherical">>,
  cin |-> <<<<>>, <<>>, <<>>, <<>>>>, cout |-> <<<<>>>>, least |-> 0]
>>
=============================================================================
