------------------------------- MODULE FunTab -------------------------------
(* Values of the elementary functions at selected points, in units of 10^-4, *)
(* rounded to nearest. Generated once from the C library; constants of the   *)
(* specification (the oracle for function values).                           *)
EXTENDS Integers
FunTab == [
  Log |-> <<
    <<<<1,10>>,-23026>>,<<<<1,8>>,-20794>>,<<<<1,4>>,-13863>>,
    <<<<1,2>>,-6931>>,<<<<3,4>>,-2877>>,<<<<1,1>>,0>>,<<<<5,4>>,2231>>,
    <<<<3,2>>,4055>>,<<<<7,4>>,5596>>,<<<<2,1>>,6931>>,<<<<9,4>>,8109>>,
    <<<<5,2>>,9163>>,<<<<3,1>>,10986>>,<<<<7,2>>,12528>>,<<<<4,1>>,13863>>,
    <<<<5,1>>,16094>>,<<<<6,1>>,17918>>,<<<<8,1>>,20794>>,<<<<9,1>>,21972>>,
    <<<<10,1>>,23026>>,<<<<16,1>>,27726>>,<<<<100,1>>,46052>>>>,
  Log10 |-> <<
    <<<<1,10>>,-10000>>,<<<<1,8>>,-9031>>,<<<<1,4>>,-6021>>,
    <<<<1,2>>,-3010>>,<<<<3,4>>,-1249>>,<<<<1,1>>,0>>,<<<<5,4>>,969>>,
    <<<<3,2>>,1761>>,<<<<7,4>>,2430>>,<<<<2,1>>,3010>>,<<<<9,4>>,3522>>,
    <<<<5,2>>,3979>>,<<<<3,1>>,4771>>,<<<<7,2>>,5441>>,<<<<4,1>>,6021>>,
    <<<<5,1>>,6990>>,<<<<6,1>>,7782>>,<<<<8,1>>,9031>>,<<<<9,1>>,9542>>,
    <<<<10,1>>,10000>>,<<<<16,1>>,12041>>,<<<<100,1>>,20000>>>>,
  Sqrt |-> <<
    <<<<0,1>>,0>>,<<<<1,10>>,3162>>,<<<<1,8>>,3536>>,<<<<1,4>>,5000>>,
    <<<<1,2>>,7071>>,<<<<3,4>>,8660>>,<<<<1,1>>,10000>>,<<<<5,4>>,11180>>,
    <<<<3,2>>,12247>>,<<<<7,4>>,13229>>,<<<<2,1>>,14142>>,<<<<9,4>>,15000>>,
    <<<<5,2>>,15811>>,<<<<3,1>>,17321>>,<<<<7,2>>,18708>>,<<<<4,1>>,20000>>,
    <<<<5,1>>,22361>>,<<<<6,1>>,24495>>,<<<<8,1>>,28284>>,<<<<9,1>>,30000>>,
    <<<<10,1>>,31623>>,<<<<16,1>>,40000>>,<<<<100,1>>,100000>>>>,
  Exp |-> <<
    <<<<-4,1>>,183>>,<<<<-7,2>>,302>>,<<<<-3,1>>,498>>,<<<<-5,2>>,821>>,
    <<<<-2,1>>,1353>>,<<<<-3,2>>,2231>>,<<<<-1,1>>,3679>>,<<<<-3,4>>,4724>>,
    <<<<-1,2>>,6065>>,<<<<-1,4>>,7788>>,<<<<0,1>>,10000>>,<<<<1,10>>,11052>>,
    <<<<1,8>>,11331>>,<<<<1,4>>,12840>>,<<<<1,2>>,16487>>,<<<<3,4>>,21170>>,
    <<<<1,1>>,27183>>,<<<<5,4>>,34903>>,<<<<3,2>>,44817>>,<<<<7,4>>,57546>>,
    <<<<2,1>>,73891>>,<<<<9,4>>,94877>>,<<<<5,2>>,121825>>,
    <<<<3,1>>,200855>>,<<<<7,2>>,331155>>,<<<<4,1>>,545982>>,
    <<<<5,1>>,1484132>>,<<<<6,1>>,4034288>>,<<<<8,1>>,29809580>>,
    <<<<9,1>>,81030839>>>>,
  Sin |-> <<
    <<<<-4,1>>,7568>>,<<<<-7,2>>,3508>>,<<<<-3,1>>,-1411>>,
    <<<<-5,2>>,-5985>>,<<<<-2,1>>,-9093>>,<<<<-3,2>>,-9975>>,
    <<<<-1,1>>,-8415>>,<<<<-3,4>>,-6816>>,<<<<-1,2>>,-4794>>,
    <<<<-1,4>>,-2474>>,<<<<0,1>>,0>>,<<<<1,10>>,998>>,<<<<1,8>>,1247>>,
    <<<<1,4>>,2474>>,<<<<1,2>>,4794>>,<<<<3,4>>,6816>>,<<<<1,1>>,8415>>,
    <<<<5,4>>,9490>>,<<<<3,2>>,9975>>,<<<<7,4>>,9840>>,<<<<2,1>>,9093>>,
    <<<<9,4>>,7781>>,<<<<5,2>>,5985>>,<<<<3,1>>,1411>>,<<<<7,2>>,-3508>>,
    <<<<4,1>>,-7568>>,<<<<5,1>>,-9589>>,<<<<6,1>>,-2794>>,<<<<8,1>>,9894>>,
    <<<<9,1>>,4121>>,<<<<10,1>>,-5440>>,<<<<16,1>>,-2879>>,
    <<<<100,1>>,-5064>>>>,
  Cos |-> <<
    <<<<-4,1>>,-6536>>,<<<<-7,2>>,-9365>>,<<<<-3,1>>,-9900>>,
    <<<<-5,2>>,-8011>>,<<<<-2,1>>,-4161>>,<<<<-3,2>>,707>>,<<<<-1,1>>,5403>>,
    <<<<-3,4>>,7317>>,<<<<-1,2>>,8776>>,<<<<-1,4>>,9689>>,<<<<0,1>>,10000>>,
    <<<<1,10>>,9950>>,<<<<1,8>>,9922>>,<<<<1,4>>,9689>>,<<<<1,2>>,8776>>,
    <<<<3,4>>,7317>>,<<<<1,1>>,5403>>,<<<<5,4>>,3153>>,<<<<3,2>>,707>>,
    <<<<7,4>>,-1782>>,<<<<2,1>>,-4161>>,<<<<9,4>>,-6282>>,<<<<5,2>>,-8011>>,
    <<<<3,1>>,-9900>>,<<<<7,2>>,-9365>>,<<<<4,1>>,-6536>>,<<<<5,1>>,2837>>,
    <<<<6,1>>,9602>>,<<<<8,1>>,-1455>>,<<<<9,1>>,-9111>>,<<<<10,1>>,-8391>>,
    <<<<16,1>>,-9577>>,<<<<100,1>>,8623>>>>,
  Tan |-> <<
    <<<<-4,1>>,-11578>>,<<<<-7,2>>,-3746>>,<<<<-3,1>>,1425>>,
    <<<<-5,2>>,7470>>,<<<<-2,1>>,21850>>,<<<<-3,2>>,-141014>>,
    <<<<-1,1>>,-15574>>,<<<<-3,4>>,-9316>>,<<<<-1,2>>,-5463>>,
    <<<<-1,4>>,-2553>>,<<<<0,1>>,0>>,<<<<1,10>>,1003>>,<<<<1,8>>,1257>>,
    <<<<1,4>>,2553>>,<<<<1,2>>,5463>>,<<<<3,4>>,9316>>,<<<<1,1>>,15574>>,
    <<<<5,4>>,30096>>,<<<<3,2>>,141014>>,<<<<7,4>>,-55204>>,
    <<<<2,1>>,-21850>>,<<<<9,4>>,-12386>>,<<<<5,2>>,-7470>>,
    <<<<3,1>>,-1425>>,<<<<7,2>>,3746>>,<<<<4,1>>,11578>>,<<<<5,1>>,-33805>>,
    <<<<6,1>>,-2910>>,<<<<8,1>>,-67997>>,<<<<9,1>>,-4523>>,<<<<10,1>>,6484>>,
    <<<<16,1>>,3006>>,<<<<100,1>>,-5872>>>>]
=============================================================================
