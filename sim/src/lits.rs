// Written by tools/gen_literals.py.
use bvh_anim::{bvh, Bvh};
macro_rules! lit {
    ($($t:tt)*) => { (bvh! { $($t)* }, stringify!($($t)*)) };
}
pub const COUNT: usize = 48;
#[inline(never)]
fn lit0() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT head
        {
            OFFSET 1.0 209.0 -276.049824627445
            CHANNELS 0
            JOINT builder
            {
                OFFSET -0.0 -211.0 0.5
                CHANNELS 0
                JOINT Frame
                {
                    OFFSET 223.547608 -279.0 0.0
                    CHANNELS 0
                    JOINT Left_Toe_Base_of_the_Skeleton_of_a_very_large_animal
                    {
                        OFFSET -0.0 -0.225 321.0
                        CHANNELS 0
                        JOINT a
                        {
                            OFFSET -0.577 372.0 -296.542607
                            CHANNELS 0
                            JOINT mod
                            {
                                OFFSET -272.0 -191.0 0.5
                                CHANNELS 0
                                JOINT MOTION
                                {
                                    OFFSET 0.957 -3.4028235e38 -646.419027255599
                                    CHANNELS 0
                                    JOINT End
                                    {
                                        OFFSET 668.068005560663 385.0 173.0
                                        CHANNELS 0
                                        JOINT Z9
                                        {
                                            OFFSET 68.156373 125.251522 -69.401055794880
                                            CHANNELS 0
                                            JOINT fn
                                            {
                                                OFFSET -679.715875012593 -973.715076743503 0.1
                                                CHANNELS 0
                                                JOINT a
                                                {
                                                    OFFSET -688.962708514255 -444.0 111.0
                                                    CHANNELS 0
                                                    End Site
                                                    {
                                                        OFFSET -179.018657456115 -42.753983014409 403.0
                                                    }
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 0
        Frame Time: 2.5
    }
}
#[inline(never)]
fn lit1() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT Frames
        {
            OFFSET -0.185 -268.0 266.634549
            CHANNELS 1 Zposition
            JOINT builder
            {
                OFFSET -180.0 0.0 -379.792626441328
                CHANNELS 1 Zposition
                End Site
                {
                    OFFSET 0.0 39.578287 -292.680187
                }
            }
            JOINT HEAD
            {
                OFFSET 0.022 320.735952 -14.0
                CHANNELS 1 Xposition
                End Site
                {
                    OFFSET 0.1 33554433.0 121.092404114857
                }
            }
            JOINT OFFSET
            {
                OFFSET -0.214 -169.0 1.17549435e-38
                CHANNELS 1 Xrotation
                End Site
                {
                    OFFSET -289.123647 0.699 377.0
                }
            }
            JOINT joint
            {
                OFFSET -6.0 0.254 0.0
                CHANNELS 1 Xrotation
                End Site
                {
                    OFFSET 208.0 282.0 -1.0
                }
            }
            JOINT bvh
            {
                OFFSET 353.363609 -880.671347625078 0.5
                CHANNELS 1 Zrotation
                End Site
                {
                    OFFSET -0.413 1.0 -0.221
                }
            }
            JOINT Left_Toe_Base_of_the_Skeleton_of_a_very_large_animal
            {
                OFFSET 245.873647 -184.697489 233.013909766515
                CHANNELS 1 Xposition
            }
            JOINT HIERARCHY
            {
                OFFSET 42.629610 100.0 160.933296
                CHANNELS 1 Zrotation
                End Site
                {
                    OFFSET -252.0 -0.419 33.706098
                }
            }
            JOINT Neck
            {
                OFFSET 256.993633805100 -0.0 -77.605662817315
                CHANNELS 1 Yposition
                End Site
                {
                    OFFSET -187.741907 -425.0 -177.175591
                }
            }
        }
        MOTION
        Frames: 3
        Frame Time: 86400.25
        -39.884230729217 435.0 -339.0 1.0 452.0 0.709 371.0 488.0 -0.022
        201.0 0.5 -393.277752189310 -0.874 0.5 -28.538055 -0.113 -0.004 0.5
        119.0 177.908247 0.139 213.149660 -474.764762331219 -64.400750603641 -230.023140 -249.324182 73.955135
    }
}
#[inline(never)]
fn lit2() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT _x1
        {
            OFFSET -2.5E4 0.249 -44.0
            CHANNELS 2 Yrotation Zposition
            JOINT a
            {
                OFFSET -230.0 175.138616 232.0
                CHANNELS 2 Xrotation Zrotation
                JOINT OFFSET
                {
                    OFFSET -479.0 -297.047410 -425.0
                    CHANNELS 2 Yposition Yrotation
                    JOINT MOTION
                    {
                        OFFSET -364.0 -0.099 0.930
                        CHANNELS 2 Zrotation Xrotation
                        JOINT a
                        {
                            OFFSET 299.670950 -32.0 -294.0
                            CHANNELS 2 Zrotation Xrotation
                            End Site
                            {
                                OFFSET 0.330 303.938055 -256.047823
                            }
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 1e-9
        -212.949589 48.0 -298.126631 907.033054786743 266.561990 0.0 -0.823 -703.480388775802 -75.0 -191.270543
    }
}
#[inline(never)]
fn lit3() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT bvh
        {
            OFFSET 567.447361479390 -243.0 200.750545
            CHANNELS 3 Zposition Xrotation Zrotation
        }
        MOTION
        Frames: 3
        Frame Time: 0.016666667
        -419.0 400.0 1e-45
        16777217.0 16777217.0 -308.0
        8388609.5 -229.0 -0.493
    }
}
#[inline(never)]
fn lit4() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT joint
        {
            OFFSET 0.080 107.379414 -305.155949
            CHANNELS 4 Xposition Zposition Xrotation Zrotation
            JOINT CHANNELS
            {
                OFFSET -0.219 -44.0 -39.104915
                CHANNELS 4 Xrotation Zposition Yrotation Zrotation
                JOINT Frame
                {
                    OFFSET 6.0 269.0 -146.796598
                    CHANNELS 4 Zrotation Yrotation Xrotation Yposition
                    JOINT fn
                    {
                        OFFSET 218.171853 -131.621236 -986.001188645355
                        CHANNELS 4 Yrotation Yposition Xrotation Xrotation
                        JOINT End
                        {
                            OFFSET -261.220694 -0.238 341.0
                            CHANNELS 4 Zrotation Zposition Xrotation Yposition
                            JOINT MOTION
                            {
                                OFFSET 202.0 445.0 -0.604
                                CHANNELS 4 Xrotation Yrotation Yrotation Zposition
                                End Site
                                {
                                    OFFSET 41.245084 88.067784 58.0
                                }
                            }
                        }
                        JOINT mod
                        {
                            OFFSET 0.206 0.162 266.098894
                            CHANNELS 4 Yposition Zposition Xrotation Xposition
                            JOINT HEAD
                            {
                                OFFSET -77.0 -734.744860301796 -0.784
                                CHANNELS 4 Xposition Yrotation Xposition Zposition
                                End Site
                                {
                                    OFFSET -86.819109 -937.645745691220 -467.0
                                }
                            }
                            JOINT builder
                            {
                                OFFSET 0.0 745.037348125597 -88.001175
                                CHANNELS 4 Yrotation Xposition Zposition Xrotation
                                End Site
                                {
                                    OFFSET -0.627 0.464 0.0
                                }
                            }
                            JOINT HEAD
                            {
                                OFFSET 0.5 114.737070 -325.092695
                                CHANNELS 4 Yposition Xposition Xrotation Zrotation
                                End Site
                                {
                                    OFFSET -476.0 0.0 20.628941
                                }
                            }
                        }
                    }
                    JOINT Left_Toe_Base_of_the_Skeleton_of_a_very_large_animal
                    {
                        OFFSET 330.0 314.0 -3.4028235e38
                        CHANNELS 4 Zposition Xrotation Xposition Xposition
                        JOINT End
                        {
                            OFFSET 235.304239 318.0 799.196321784510
                            CHANNELS 4 Xposition Xrotation Zrotation Yposition
                            JOINT Chest
                            {
                                OFFSET -180.0 -2.5E4 0.0
                                CHANNELS 4 Yrotation Zrotation Xrotation Yposition
                                End Site
                                {
                                    OFFSET -59.867063 116.0 134.0
                                }
                            }
                            JOINT a
                            {
                                OFFSET -204.212169761141 497.0 -65.485886
                                CHANNELS 4 Yrotation Yrotation Xrotation Zrotation
                                End Site
                                {
                                    OFFSET 0.1 210.509158113899 0.30000001
                                }
                            }
                        }
                        JOINT _x1
                        {
                            OFFSET -18.170603 3.4028235e38 0.316
                            CHANNELS 4 Xrotation Zrotation Xposition Zposition
                            JOINT JOINT
                            {
                                OFFSET 0.650 0.1 -110.0
                                CHANNELS 4 Xrotation Zrotation Yposition Yrotation
                                End Site
                                {
                                    OFFSET -93.435713 -132.679439 -121.0
                                }
                            }
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 0.0
        16.0 -193.734444 -232.0 1.0 344.426450 63.809828 -0.185 -513.181236687879 -19.0 -0.453 48.860081 63.429828 -201.0 -160.402769 0.231 -1.0 0.060 408.0 -0.054 -270.855073 2.0 192.0 -193.0 1.0 16777217.0 226.0 232.0 184.086539 -290.860924 -332.0 188.476574 495.0 -2.5E4 16777217.0 229.583277 -0.0 146.750094167696 835.037523481120 -239.0 -1.0 1e-3 408.0 0.792 -96.645001 -0.757 -219.556529 -16.0 -210.322166 -149.0 190.561564 0.30000001 -337.0 318.0 -24.0 -55.0 -606.670012005079 -787.670130342982 -51.491758 -323.0 -188.0 287.207023 0.274 -149.977774 -0.0
    }
}
#[inline(never)]
fn lit5() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT _x1
        {
            OFFSET 113.573720 -297.676213 190.153701
            CHANNELS 5 Xrotation Zposition Xposition Zrotation Yrotation
            JOINT CHANNELS
            {
                OFFSET -0.0 -85.0 195.891701
                CHANNELS 5 Xposition Yrotation Xrotation Yposition Xrotation
                End Site
                {
                    OFFSET 1e-3 -993.168466292852 -0.0
                }
            }
            JOINT MOTION
            {
                OFFSET -126.443202 -0.996 0.242
                CHANNELS 5 Xposition Xrotation Zposition Zposition Yposition
                End Site
                {
                    OFFSET 0.868 -432.0 181.662241
                }
            }
        }
        MOTION
        Frames: 0
        Frame Time: 0.033333333333
    }
}
#[inline(never)]
fn lit6() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT Hips
        {
            OFFSET -16.0 438.0 0.286
            CHANNELS 6 Xposition Yposition Yrotation Xrotation Zrotation Zposition
            JOINT mod
            {
                OFFSET 298.0 155.064789 153.971473
                CHANNELS 6 Xposition Yrotation Zposition Zrotation Yposition Xrotation
                End Site
                {
                    OFFSET 91.0 301.996623 0.917
                }
            }
            JOINT ROOT
            {
                OFFSET 75.0 -0.0 -0.160
                CHANNELS 6 Yrotation Xrotation Zrotation Yposition Zposition Xrotation
                End Site
                {
                    OFFSET -58.083198 133.339587 -225.014022
                }
            }
            JOINT JOINT
            {
                OFFSET 0.601 0.529 -18.0
                CHANNELS 6 Yposition Yrotation Yposition Yrotation Xposition Zposition
            }
        }
        MOTION
        Frames: 2
        Frame Time: 0.016666667
        -126.369665 -188.250238 0.234 86.645948 -108.0 -291.0 0.313 0.001 -88.010729345089 -322.530730 0.014 -275.920879 -0.928 303.0 3.4028235e38 0.418 1e-3 -81.454625 0.317 266.561256 -0.409 3.4028235e38 81.0 915.676683282415
        0.5 315.0 477.0 -221.0 291.0 -230.0 0.5 -928.038655681556 0.700 -0.915 19.0 -337.0 -1.0 132.898338 -201.852972 -358.0 153.094249 -207.043186 -393.0 -99.835018 204.604839 -173.997284 -105.704890572527 -926.023939265669
    }
}
#[inline(never)]
fn lit7() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT End
        {
            OFFSET 0.952 167.017043 1.17549435e-38
            CHANNELS 7 Xposition Xposition Zrotation Xposition Zrotation Zrotation Zrotation
            JOINT End
            {
                OFFSET 0.849 0.270 -0.286
                CHANNELS 7 Xposition Xrotation Zrotation Zrotation Xposition Xposition Zrotation
            }
        }
        MOTION
        Frames: 2
        Frame Time: 0.0083333333
        -284.885100 629.903267155245 216.582831214887 -78.353538 861.855412190804 -41.160908 0.0 518.183754511418 0.963 -0.0 899.549546674821 -407.0 -0.381 42.0
        -396.0 0.477 -409.0 450.0 -142.0 1.0 -483.257999832452 -753.363554003430 -2.5E4 989.124266887447 -0.381 -789.520986497764 -351.526381 -122.642321029543
    }
}
#[inline(never)]
fn lit8() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT builder
        {
            OFFSET -226.037612 -358.0 -1.0
            CHANNELS 8 Yposition Yrotation Xrotation Yposition Zposition Zposition Xrotation Xrotation
            JOINT HEAD
            {
                OFFSET -0.743 356.088993 163.319109
                CHANNELS 8 Zposition Xrotation Yrotation Yposition Xposition Zrotation Yposition Xposition
                JOINT a
                {
                    OFFSET 8388609.5 111.0 -0.996
                    CHANNELS 8 Yrotation Xposition Yrotation Xposition Zposition Zposition Xposition Zrotation
                    JOINT bvh
                    {
                        OFFSET 0.5 110.0 -236.137224
                        CHANNELS 8 Xposition Yposition Xrotation Yposition Xrotation Yposition Xrotation Xrotation
                        JOINT HIERARCHY
                        {
                            OFFSET 40.0 -209.205065 1.0
                            CHANNELS 8 Zrotation Xrotation Xposition Zposition Yrotation Xrotation Xrotation Yposition
                            JOINT head
                            {
                                OFFSET -90.894898 -262.913982 -0.098
                                CHANNELS 8 Zposition Yposition Yrotation Zrotation Yposition Xposition Zposition Yrotation
                                JOINT CHANNELS
                                {
                                    OFFSET -61.0 0.344 -212.0
                                    CHANNELS 8 Zposition Zrotation Yrotation Xposition Yposition Zrotation Zrotation Yposition
                                    JOINT Hips
                                    {
                                        OFFSET 115.0 0.0 -0.509
                                        CHANNELS 8 Xrotation Yposition Zrotation Xposition Yrotation Yrotation Xposition Yrotation
                                        JOINT Neck
                                        {
                                            OFFSET -482.0 -86.907340 -165.658738
                                            CHANNELS 8 Zrotation Zposition Zrotation Yposition Yposition Zposition Xposition Yrotation
                                            JOINT ROOT
                                            {
                                                OFFSET 225.211383 364.0 -80.894867
                                                CHANNELS 8 Zrotation Xposition Yposition Zposition Yrotation Zrotation Yrotation Xrotation
                                                JOINT Xposition
                                                {
                                                    OFFSET -829.841895269662 -289.0 -0.268
                                                    CHANNELS 8 Yposition Zrotation Yposition Yrotation Zrotation Zrotation Xrotation Xposition
                                                    End Site
                                                    {
                                                        OFFSET 0.5 911.898233203179 -30.958091178778
                                                    }
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 1
        -336.020664 -0.720 -39.706440 175.348693 -106.0 1.0 342.832520 -0.913 224.0 323.0 16777217.0 57.552995 830.176198805111 374.0 26.0 -295.248058 -404.0 -0.0 241.0 -453.0 -1.0 221.506083 27.612500 377.0 -407.0 333.345098 421.0 0.774 173.0 0.529 -341.0 -416.0 0.225 88.907648 3.4028235e38 -1.0 491.0 -1.0 -449.632834312691 0.0 -449.0 37.0 -390.0 258.781197 -175.381658497888 0.30000001 246.0 -0.278 369.0 -162.0 -182.791916 0.528 224.970640 -60.835617 -853.911921555530 -145.373183 -0.747 -345.0 98.192890 -789.880403811216 0.0 0.30000001 0.862 36.976467 344.062125411780 -326.068913 0.681 -425.0 390.0 -2.5E4 -313.0 209.969962 210.0 349.864054 4.0 1.0 -98.0 -103.263522 1e-3 184.0 -1.0 -239.215699 226.0 232.0 225.0 299.0 154.604184 -234.155380
    }
}
#[inline(never)]
fn lit9() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT Time
        {
            OFFSET -1.0 1e-45 -451.0
            CHANNELS 9 Zrotation Zrotation Xrotation Xrotation Yrotation Zrotation Yposition Xposition Xrotation
            JOINT ÅngStröm
            {
                OFFSET 10.0 -3.4028235e38 0.997
                CHANNELS 9 Xrotation Yrotation Xrotation Yrotation Xrotation Zrotation Xposition Zposition Zrotation
            }
            JOINT JOINT
            {
                OFFSET 0.1 0.0 0.630
                CHANNELS 9 Xrotation Xposition Xposition Zposition Xposition Xrotation Zposition Xrotation Zposition
                End Site
                {
                    OFFSET 217.563934942955 2.973385 -30.231923
                }
            }
            JOINT Time
            {
                OFFSET -476.0 -0.207 -0.701
                CHANNELS 9 Yposition Xrotation Yposition Yrotation Zposition Xrotation Xposition Xrotation Zrotation
                End Site
                {
                    OFFSET -170.864934 342.297765394090 0.30000001
                }
            }
            JOINT Z9
            {
                OFFSET 93.0 -0.724 -264.606856873474
                CHANNELS 9 Xrotation Yrotation Zposition Xposition Xrotation Yposition Xposition Xrotation Yposition
                End Site
                {
                    OFFSET 202.0 -185.0 -0.771
                }
            }
            JOINT mod
            {
                OFFSET 1.0 302.0 8388609.5
                CHANNELS 9 Xposition Yrotation Zrotation Xrotation Zrotation Zrotation Yrotation Zposition Zposition
                End Site
                {
                    OFFSET 0.0 0.30000001 -186.0
                }
            }
            JOINT Neck
            {
                OFFSET -160.092588 -280.0 490.391874615764
                CHANNELS 9 Yposition Yposition Zposition Yrotation Zrotation Xposition Xrotation Xposition Zposition
                End Site
                {
                    OFFSET -33.0 0.093 59.0
                }
            }
            JOINT Time
            {
                OFFSET -250.088131630491 0.0 22.850878
                CHANNELS 9 Zrotation Zrotation Zposition Xrotation Yrotation Zposition Xrotation Yrotation Zrotation
                End Site
                {
                    OFFSET -201.441503 -89.0 -0.096
                }
            }
            JOINT End
            {
                OFFSET -238.0 -759.789705036296 -352.757984823586
                CHANNELS 9 Zposition Zrotation Yposition Zrotation Xposition Xposition Yrotation Yposition Zposition
                End Site
                {
                    OFFSET -65.216463 238.0 352.0
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 0.0083333333
        116.0 32.0 -0.036 0.0 0.843 177.0 888.897238105519 16777217.0 324.0 33554433.0 -0.735 -0.0 -0.520 -444.0 332.0 -105.0 66.083998 608.485270333056 761.347507957528 0.0 -0.973 -1.0 -341.0 307.0 135.0 7.0 -261.0 0.983 -0.913 267.572199168123 -303.0 763.350068090795 33554433.0 -337.099207 0.0 -184.359920 -356.720342 -0.0 -3.4028235e38 8388609.5 355.030365 -224.0 -0.869 -164.885762 465.0 487.0 -2.5E4 -0.398 -829.086689345000 158.249942 -463.0 0.0 465.0 -127.216730 0.5 311.0 209.155294 297.316627 354.187516421303 -0.893 -429.0 -10.391530097906 -835.580738067428 -3.4028235e38 8388609.5 247.0 177.481386 0.429 215.193772 589.074619908227 -173.0 -264.001210 339.413013 0.455 0.877 -472.0 -0.065 -30.559583 304.655295678953 -552.215304292200 0.1
    }
}
#[inline(never)]
fn lit10() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT Chest
        {
            OFFSET -211.768361 33554433.0 -0.0
            CHANNELS 5 Yrotation Yposition Xrotation Zrotation Zposition
            JOINT bvh
            {
                OFFSET -0.091 -175.0 456.0
                CHANNELS 5 Zrotation Xrotation Xposition Yposition Zposition
                JOINT a
                {
                    OFFSET -0.0 -0.086 310.0
                    CHANNELS 9 Xposition Zposition Yrotation Zposition Xposition Zrotation Yposition Zrotation Xrotation
                    JOINT _x1
                    {
                        OFFSET 1e-3 7.0 0.5
                        CHANNELS 3 Xrotation Yrotation Zposition
                        JOINT bvh
                        {
                            OFFSET 0.018 -343.379030474674 0.0
                            CHANNELS 6 Zrotation Yposition Xrotation Xposition Yrotation Zposition
                            End Site
                            {
                                OFFSET -168.245922 -0.376 -282.420570
                            }
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 3
        Frame Time: 1e-9
        -305.374382 0.635 22.072164 0.200 -0.654 204.0 116.860587 33554433.0 -128.184186 1e-45 -484.0 238.0 309.0 -308.0 226.0 -0.067 -599.772750847145 -0.101 0.974 8388609.5 -217.259839430307 -3.4028235e38 663.812201227740 -0.375 3.4028235e38 89.860357 18.583793 216.471052
        -425.0 -112.081755 -41.694095 102.050582 -0.716 -14.862801 -0.529 108.865911 1.17549435e-38 214.0 -0.0 329.0 -375.0 -204.0 1.0 -26.000051 -388.486434055993 0.0 -351.737442 -343.799990 106.0 -1.0 164.039476 -261.072616 -398.0 1.0 0.5 -179.948805
        -142.0 -1.0 1e-45 -145.618595 -0.898 118.520083 18.626102 0.0 -122.403456 72.0 158.0 343.749265 -0.401 237.0 434.0 -0.0 282.0 372.0 25.920709 0.310 439.0 -235.849326 16777217.0 -337.893898 -73.530112 -187.009127 0.505 0.1
    }
}
#[inline(never)]
fn lit11() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT HIERARCHY
        {
            OFFSET 317.0 -70.787814 258.0
            CHANNELS 0
            End Site
            {
                OFFSET -149.0 154.091005 195.943239676055
            }
        }
        MOTION
        Frames: 0
        Frame Time: 12
    }
}
#[inline(never)]
fn lit12() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT OFFSET
        {
            OFFSET -310.0 251.545614 8388609.5
            CHANNELS 3 Yrotation Yrotation Xrotation
            JOINT joint
            {
                OFFSET -0.0 -290.731392 -96.294567
                CHANNELS 3 Yposition Zrotation Xrotation
                JOINT a
                {
                    OFFSET -280.0 73.355405 264.594640
                    CHANNELS 6 Xrotation Zrotation Yrotation Zposition Yposition Xposition
                    JOINT head
                    {
                        OFFSET 183.696161 -0.757 -0.136
                        CHANNELS 0
                        JOINT Frame
                        {
                            OFFSET -256.202543 -0.672 397.0
                            CHANNELS 6 Yrotation Zrotation Xrotation Xrotation Xrotation Zposition
                            JOINT _x1
                            {
                                OFFSET 311.0 304.0 0.666
                                CHANNELS 3 Xrotation Yposition Zrotation
                                End Site
                                {
                                    OFFSET -327.0 337.534624 -291.156248
                                }
                            }
                            JOINT Chest
                            {
                                OFFSET 262.0 954.009046313489 112.185856
                                CHANNELS 0
                                End Site
                                {
                                    OFFSET -493.0 0.300 -133.0
                                }
                            }
                        }
                    }
                }
                JOINT JOINT
                {
                    OFFSET -1.0 -290.556148788795 1.0
                    CHANNELS 0
                    JOINT bvh
                    {
                        OFFSET -280.402098 -321.0 493.0
                        CHANNELS 3 Zrotation Zposition Zrotation
                        JOINT bvh
                        {
                            OFFSET -326.154795714005 -321.182842 8388609.5
                            CHANNELS 6 Xrotation Xposition Zrotation Zposition Zrotation Zrotation
                            JOINT a
                            {
                                OFFSET -360.0 -300.252206899883 467.0
                                CHANNELS 3 Zrotation Zposition Xposition
                            }
                            JOINT builder
                            {
                                OFFSET 0.033 106.034353 42.0
                                CHANNELS 6 Zposition Zposition Xposition Yposition Zrotation Yposition
                            }
                        }
                        JOINT ROOT
                        {
                            OFFSET -532.955293366136 -171.812854 72.0
                            CHANNELS 3 Xposition Zrotation Zrotation
                            JOINT Xposition
                            {
                                OFFSET -391.0 -330.0 173.233165
                                CHANNELS 0
                                End Site
                                {
                                    OFFSET 0.992 220.0 162.863910
                                }
                            }
                            JOINT fn
                            {
                                OFFSET -423.0 1.17549435e-38 0.974
                                CHANNELS 3 Xrotation Zposition Yposition
                            }
                        }
                    }
                }
            }
            JOINT _x1
            {
                OFFSET -0.055 -636.516030434747 -184.932177
                CHANNELS 2 Xrotation Zposition
                JOINT Site
                {
                    OFFSET 555.367047698461 273.0 683.158673184530
                    CHANNELS 3 Yrotation Zposition Xposition
                    End Site
                    {
                        OFFSET 0.1 -0.583 379.0
                    }
                }
            }
        }
        MOTION
        Frames: 0
        Frame Time: 0.016666667
    }
}
#[inline(never)]
fn lit13() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT a
        {
            OFFSET 0.5 900.083199730717 -0.595
            CHANNELS 3 Xrotation Yposition Yrotation
            JOINT Xposition
            {
                OFFSET 1e-3 -354.747698 24.863054
                CHANNELS 3 Yrotation Zrotation Xrotation
                JOINT End
                {
                    OFFSET -628.579736964443 30.0 -123.0
                    CHANNELS 2 Xrotation Xposition
                    End Site
                    {
                        OFFSET 55.341728 -125.0 332.297736
                    }
                }
            }
        }
        MOTION
        Frames: 3
        Frame Time: 86400.25
        -1.0 3.4028235e38 144.052958 657.889482231399 230.993221 -253.0 0.0 467.0
        -0.509 -260.0 78.0 420.940787539434 -288.0 -289.074912340692 0.439 176.0
        -206.0 -302.828476 -0.221 -0.707 -0.0 145.811888186412 -120.0 0.269
    }
}
#[inline(never)]
fn lit14() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT Time
        {
            OFFSET -390.056800195823 461.0 -127.404300
            CHANNELS 3 Xrotation Zrotation Xposition
            JOINT ÅngStröm
            {
                OFFSET -1.0 228.0 -274.994020336899
                CHANNELS 0
                JOINT JOINT
                {
                    OFFSET 0.1 821.546826079667 114.567166
                    CHANNELS 0
                    JOINT Site
                    {
                        OFFSET -344.0 89.903952 -138.438794
                        CHANNELS 6 Zrotation Zrotation Zposition Yrotation Zposition Zposition
                        JOINT Hips
                        {
                            OFFSET -77.0 -203.041302 61.408192052709
                            CHANNELS 1 Xrotation
                            End Site
                            {
                                OFFSET -47.446185 -3.4028235e38 -3.0
                            }
                        }
                        JOINT mod
                        {
                            OFFSET -3.4028235e38 166.196614 -184.0
                            CHANNELS 3 Xrotation Yrotation Zrotation
                            End Site
                            {
                                OFFSET -301.0 -156.0 -194.0
                            }
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 2.5
        -1.0 -855.995075493493 -260.238123 -321.0 -1.0 202.0 -228.0 369.0 -330.509177 0.30000001 0.1 -22.015739441106 188.0
    }
}
#[inline(never)]
fn lit15() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT Site
        {
            OFFSET 484.0 0.0 -362.0
            CHANNELS 2 Yrotation Xrotation
            JOINT joint
            {
                OFFSET -322.0 -401.0 0.346
                CHANNELS 6 Xrotation Zposition Xposition Zposition Xrotation Xposition
                JOINT HEAD
                {
                    OFFSET 0.992 92.785253 267.773115
                    CHANNELS 3 Zposition Xrotation Xposition
                    End Site
                    {
                        OFFSET -234.574472 -64.0 0.611
                    }
                }
            }
            JOINT _x1
            {
                OFFSET 1e-45 1e-45 239.452824
                CHANNELS 6 Xrotation Yposition Xposition Xrotation Yrotation Xposition
                JOINT Left_Toe_Base_of_the_Skeleton_of_a_very_large_animal
                {
                    OFFSET 8.483906172602 0.0 -108.424498
                    CHANNELS 1 Yrotation
                    End Site
                    {
                        OFFSET -420.303347116695 -56.0 18.0
                    }
                }
            }
            JOINT a
            {
                OFFSET -0.528 -3.4028235e38 28.0
                CHANNELS 6 Yposition Xrotation Zposition Xrotation Yposition Zrotation
                JOINT Hips
                {
                    OFFSET -167.0 181.0 424.0
                    CHANNELS 2 Zposition Yposition
                    End Site
                    {
                        OFFSET -242.903706 0.412 16.793569
                    }
                }
                JOINT MOTION
                {
                    OFFSET 972.570775669157 -134.0 -240.631521031754
                    CHANNELS 1 Xrotation
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 0.5
        -1.0 -379.0 216.550522335371 -182.0 -142.0 -895.428825039563 -700.573993135151 33554433.0 1e-45 -2.5E4 316.457539 13.0 0.161 33554433.0 -323.781058 288.882137 -0.560 -0.486 -1.0 -105.0 -223.822532 0.780 -24.0 -0.294 -291.802976 -111.0 114.344072
    }
}
#[inline(never)]
fn lit16() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT Chest
        {
            OFFSET -298.570396 -1.0 -774.777206623826
            CHANNELS 2 Yposition Zposition
            JOINT HEAD
            {
                OFFSET 0.911 86.0 -72.901949
                CHANNELS 3 Zposition Zrotation Yrotation
                JOINT JOINT
                {
                    OFFSET -548.209504447313 391.0 -126.218212
                    CHANNELS 0
                    JOINT Site
                    {
                        OFFSET 0.139 267.0 -0.0
                        CHANNELS 3 Zposition Yrotation Xposition
                        JOINT CHANNELS
                        {
                            OFFSET 0.604 0.635 -417.0
                            CHANNELS 3 Xposition Zrotation Xposition
                            JOINT Left_Toe_Base_of_the_Skeleton_of_a_very_large_animal
                            {
                                OFFSET -0.801 148.274428 63.0
                                CHANNELS 6 Yposition Xposition Xrotation Yrotation Yrotation Yposition
                                JOINT Z9
                                {
                                    OFFSET 400.0 0.0 -49.203524
                                    CHANNELS 1 Yrotation
                                    JOINT fn
                                    {
                                        OFFSET 183.911831 -10.0 -2.5E4
                                        CHANNELS 0
                                        JOINT Left_Toe_Base_of_the_Skeleton_of_a_very_large_animal
                                        {
                                            OFFSET -36.872946 -0.461 792.323680083996
                                            CHANNELS 3 Xrotation Yrotation Zrotation
                                            JOINT _x1
                                            {
                                                OFFSET -0.980 27.439277 360.0
                                                CHANNELS 1 Xposition
                                                JOINT Time
                                                {
                                                    OFFSET 37.0 0.365 145.315643
                                                    CHANNELS 3 Yrotation Zposition Zposition
                                                    End Site
                                                    {
                                                        OFFSET 0.0 254.950488 40.0
                                                    }
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 1
        27.982321 -0.043 0.0 -0.261 308.0 292.0 1e-45 -325.108560 -0.0 264.0 -0.940 -27.0 0.021 0.546 -194.274599 3.4028235e38 0.335 225.0 612.083552005382 1.0 -1.0 -386.0 113.0 -0.0 -899.234624112669
    }
}
#[inline(never)]
fn lit17() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT Z9
        {
            OFFSET -277.699681674379 -351.0 328.0
            CHANNELS 3 Xrotation Yrotation Zrotation
            JOINT ROOT
            {
                OFFSET 99.357316 -263.0 -555.102643975119
                CHANNELS 2 Zrotation Yrotation
                End Site
                {
                    OFFSET 289.197346 -266.555562 158.0
                }
            }
            JOINT a
            {
                OFFSET 323.241178 148.925780287764 193.0
                CHANNELS 0
                End Site
                {
                    OFFSET -232.157819 149.0 96.033859
                }
            }
            JOINT joint
            {
                OFFSET 0.830 -270.577997 1.17549435e-38
                CHANNELS 0
                End Site
                {
                    OFFSET -0.503 0.385 -9.0
                }
            }
            JOINT Neck
            {
                OFFSET -238.958922 -220.0 -363.0
                CHANNELS 2 Zrotation Zrotation
                End Site
                {
                    OFFSET -869.523827263482 282.792548 -7.954146
                }
            }
            JOINT Left_Toe_Base_of_the_Skeleton_of_a_very_large_animal
            {
                OFFSET -431.0 437.0 -0.110
                CHANNELS 2 Zrotation Xposition
                End Site
                {
                    OFFSET 0.1 206.0 224.091684
                }
            }
            JOINT JOINT
            {
                OFFSET 30.309264 -128.351590 58.735579
                CHANNELS 3 Zrotation Yposition Yrotation
                End Site
                {
                    OFFSET -26.840554 358.0 157.354954
                }
            }
            JOINT joint
            {
                OFFSET -236.360319 112.0 -66.583678900814
                CHANNELS 3 Zposition Yposition Yrotation
                End Site
                {
                    OFFSET -162.321352715558 54.575263 -1.0
                }
            }
            JOINT joint
            {
                OFFSET 45.0 921.410310272757 -193.763328
                CHANNELS 3 Zposition Yposition Yposition
            }
        }
        MOTION
        Frames: 3
        Frame Time: 1
        311.836521 256.592212 -0.913 37.823557 168.147635930968 -0.472 257.588502 179.065577 390.0 -250.682983818434 171.633673 -0.0 105.0 -1.0 184.914109 1e-45 -168.303611 -72.0
        0.815 37.090331 22.851959 0.5 203.941045 0.5 467.0 326.358837 454.0 -185.632766 309.0 0.1 0.5 -0.067 189.0 -380.0 33554433.0 -9.975807
        -149.436157 140.0 -360.0 8388609.5 267.610575 648.046113880072 429.0 -0.380 -155.0 -2.5E4 -465.765390413240 -166.905480 -140.269766 225.804733 -372.0 46.0 3.4028235e38 135.0
    }
}
#[inline(never)]
fn lit18() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT Site
        {
            OFFSET -257.0 0.347 0.582
            CHANNELS 1 Xposition
            JOINT CHANNELS
            {
                OFFSET 342.0 212.238997 -1.0
                CHANNELS 3 Xposition Zrotation Xrotation
                End Site
                {
                    OFFSET 698.882121559621 -1.0 790.642927431760
                }
            }
        }
        MOTION
        Frames: 2
        Frame Time: 0.000000001499
        156.297344 393.0 488.0 8.164673
        -0.190 0.5 136.407546 -176.650084
    }
}
#[inline(never)]
fn lit19() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT CHANNELS
        {
            OFFSET -331.0 181.796894 -88.0
            CHANNELS 3 Xposition Xposition Yposition
        }
        MOTION
        Frames: 0
        Frame Time: 0.0
    }
}
#[inline(never)]
fn lit20() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT Site
        {
            OFFSET 199.0 405.0 -468.0
            CHANNELS 6 Xposition Zposition Zposition Zposition Zrotation Xrotation
            JOINT ROOT
            {
                OFFSET 13.566198 -87.0 -471.0
                CHANNELS 6 Yposition Xrotation Xposition Zrotation Yrotation Zposition
                JOINT MOTION
                {
                    OFFSET 195.521457 3.4028235e38 -244.137557701738
                    CHANNELS 3 Xposition Yposition Zrotation
                    JOINT Site
                    {
                        OFFSET -401.0 346.0 226.980849
                        CHANNELS 1 Xposition
                        JOINT mod
                        {
                            OFFSET -1.0 278.0 16777217.0
                            CHANNELS 0
                            JOINT ÅngStröm
                            {
                                OFFSET 0.0 -535.093247632542 -280.341089
                                CHANNELS 3 Yposition Yrotation Zrotation
                                End Site
                                {
                                    OFFSET 1.0 170.704710 -0.207
                                }
                            }
                            JOINT bvh
                            {
                                OFFSET -877.102119645392 -45.0 0.819
                                CHANNELS 3 Xposition Zrotation Yposition
                            }
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 2
        Frame Time: 2.5
        -391.0 140.923689 -3.4028235e38 0.5 -7.566973 15.690263769620 -353.0 366.0 -482.0 20.394898 109.0 -0.0 0.0 239.322907 453.066340873586 63.819008887061 -422.0 -974.646785321284 -11.782333 49.0 -261.0 -0.210
        26.0 164.210927 129.742834 -339.0 8388609.5 -33.975309734682 0.708 -335.342250 60.0 0.30000001 -203.502251 26.560880 -1.0 134.0 255.0 1.17549435e-38 -3.4028235e38 145.0 0.629 286.0 1e-3 340.652530
    }
}
#[inline(never)]
fn lit21() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT _x1
        {
            OFFSET -172.0 -277.075942 -481.0
            CHANNELS 3 Xposition Xrotation Yposition
            JOINT Xposition
            {
                OFFSET -0.0 327.449212 -113.0
                CHANNELS 2 Zrotation Zposition
                JOINT builder
                {
                    OFFSET 0.572 -317.952267 167.052673
                    CHANNELS 2 Yposition Xrotation
                    JOINT ROOT
                    {
                        OFFSET -505.805781920642 80.894597 -32.462551
                        CHANNELS 3 Xrotation Yposition Zrotation
                        JOINT HEAD
                        {
                            OFFSET -0.0 -20.0 -0.164
                            CHANNELS 3 Yrotation Xposition Yrotation
                            End Site
                            {
                                OFFSET -497.0 -279.534919 140.0
                            }
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 0
        Frame Time: 0.5
    }
}
#[inline(never)]
fn lit22() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT ROOT
        {
            OFFSET -95.971624 -293.250480 0.5
            CHANNELS 6 Yposition Xposition Xrotation Xrotation Yrotation Zposition
            JOINT mod
            {
                OFFSET 0.711 0.675 -175.621700
                CHANNELS 3 Yrotation Xposition Xrotation
                JOINT bvh
                {
                    OFFSET -0.560 1e-45 -141.558734
                    CHANNELS 6 Zposition Yrotation Yrotation Zrotation Zposition Xposition
                    JOINT CHANNELS
                    {
                        OFFSET -306.601029407456 334.0 277.694379
                        CHANNELS 2 Zrotation Yposition
                        End Site
                        {
                            OFFSET 87.0 -0.0 -24.522827
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 2
        Frame Time: 0.0
        -279.367865321161 -1.0 0.300 13.681119 -33.0 -345.0 -281.0 16777217.0 0.532 3.4028235e38 -395.0 478.0 -147.131997 352.985070 155.0 -282.140662 152.0
        405.0 -0.522 -364.0 27.364036 0.624 0.0 -0.0 33554433.0 -0.530 744.824295326643 229.020979 -75.0 52.026474 -302.0 97.0 -23.0 226.067300
    }
}
#[inline(never)]
fn lit23() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT a
        {
            OFFSET 411.0 0.30000001 -339.0
            CHANNELS 1 Xposition
            JOINT ROOT
            {
                OFFSET 78.463172 0.238 -123.300401
                CHANNELS 2 Xposition Yrotation
                JOINT HEAD
                {
                    OFFSET -725.958405443563 -0.524 213.0
                    CHANNELS 3 Yrotation Zposition Xrotation
                    JOINT _x1
                    {
                        OFFSET -89.0 -338.0 1.0
                        CHANNELS 3 Xposition Zposition Yrotation
                        End Site
                        {
                            OFFSET -0.083 259.0 0.5
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 3
        Frame Time: 2.5
        -336.0 -269.0 0.789 -459.0 -659.352319285779 -493.0 -283.0 70.0 -410.0
        216.795437 168.332606 1e-45 0.122 -114.0 373.0 0.518 76.445369 368.0
        607.679772740035 -93.522071 -0.577 -450.0 -137.0 158.538222 560.305024947983 -109.0 -419.0
    }
}
#[inline(never)]
fn lit24() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT Frame
        {
            OFFSET 72.0 -366.0 1e-3
            CHANNELS 1 Xposition
            JOINT CHANNELS
            {
                OFFSET -488.0 -42.440217 -271.925948
                CHANNELS 3 Yrotation Yposition Xposition
                JOINT a
                {
                    OFFSET 0.477 -158.508496 -358.0
                    CHANNELS 0
                    JOINT bvh
                    {
                        OFFSET 47.781106 144.830955 0.5
                        CHANNELS 2 Yposition Xrotation
                        JOINT Frame
                        {
                            OFFSET 61.0 -73.490789 -116.0
                            CHANNELS 0
                            JOINT OFFSET
                            {
                                OFFSET -0.174 16777217.0 92.0
                                CHANNELS 3 Zposition Yposition Zrotation
                                JOINT Time
                                {
                                    OFFSET 3.4028235e38 391.0 -429.677636566873
                                    CHANNELS 3 Yrotation Zposition Zposition
                                    JOINT builder
                                    {
                                        OFFSET 101.0 -0.467 43.0
                                        CHANNELS 3 Xrotation Zrotation Zposition
                                        JOINT mod
                                        {
                                            OFFSET -123.0 3.4028235e38 485.0
                                            CHANNELS 3 Zrotation Yposition Xposition
                                            JOINT Hips
                                            {
                                                OFFSET -0.035 486.0 139.268243
                                                CHANNELS 3 Yrotation Zposition Xposition
                                                JOINT Hips
                                                {
                                                    OFFSET -324.240337 -183.0 -114.884631
                                                    CHANNELS 6 Zposition Xposition Yrotation Zposition Xrotation Xrotation
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 2
        Frame Time: 1e-9
        -2.5E4 -0.062 -915.516861243275 219.113625 -326.0 0.0 183.0 -193.579369 131.780535 65.956292 -94.836803735771 -0.838 1e-45 25.0 196.571310 -310.524977 -465.0 -408.0 -42.806938 461.0 0.550 13.0 0.5 -3.4028235e38 70.0 0.0 -280.951635
        8388609.5 -5.073774 0.5 428.0 -73.0 -1.0 0.978 -0.904 -288.848606 33554433.0 -0.078 -134.935162 1.0 -96.0 -0.032 -0.437 -239.343775 -285.025499 220.896155 -324.0 -322.091547 -186.0 -455.531283406728 -243.006458 -0.682 431.0 -0.010
    }
}
#[inline(never)]
fn lit25() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT HIERARCHY
        {
            OFFSET -0.118 2.166593717123 319.0
            CHANNELS 6 Yrotation Yrotation Zposition Yrotation Yrotation Zposition
            JOINT builder
            {
                OFFSET -3.4028235e38 -0.612 -0.078
                CHANNELS 1 Yrotation
                End Site
                {
                    OFFSET 0.963 271.0 241.570625
                }
            }
            JOINT fn
            {
                OFFSET 178.0 259.266378 -490.0
                CHANNELS 6 Yrotation Yposition Xrotation Zrotation Xposition Zposition
                End Site
                {
                    OFFSET -417.0 0.0 0.684
                }
            }
            JOINT OFFSET
            {
                OFFSET 0.5 180.340060 -276.0
                CHANNELS 3 Xposition Yposition Yrotation
                End Site
                {
                    OFFSET -604.865965874929 0.631 242.0
                }
            }
            JOINT ROOT
            {
                OFFSET 184.565753267242 1.17549435e-38 134.0
                CHANNELS 3 Xposition Yposition Zrotation
                End Site
                {
                    OFFSET 381.0 360.0 126.773801
                }
            }
            JOINT mod
            {
                OFFSET 366.127194088994 -0.246 184.616187
                CHANNELS 3 Yrotation Zrotation Yposition
            }
            JOINT End
            {
                OFFSET 0.0 0.30000001 -0.927
                CHANNELS 0
            }
            JOINT joint
            {
                OFFSET 410.887055325010 394.0 -219.615482
                CHANNELS 2 Yposition Xrotation
                End Site
                {
                    OFFSET -191.0 -274.350989168542 0.095
                }
            }
            JOINT Frame
            {
                OFFSET 274.192504 -232.0 -342.503360
                CHANNELS 3 Yrotation Xposition Zrotation
                End Site
                {
                    OFFSET -336.627563 202.873220 0.333
                }
            }
        }
        MOTION
        Frames: 0
        Frame Time: 0.000000001499
    }
}
#[inline(never)]
fn lit26() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT Left_Toe_Base_of_the_Skeleton_of_a_very_large_animal
        {
            OFFSET 306.0 470.0 8388609.5
            CHANNELS 8 Xposition Yrotation Yposition Xrotation Yrotation Yposition Yposition Yrotation
            JOINT fn
            {
                OFFSET 0.080 0.5 1.0
                CHANNELS 7 Xrotation Zrotation Zrotation Yposition Yrotation Xrotation Xposition
                JOINT a
                {
                    OFFSET -166.343715 3.4028235e38 100.0
                    CHANNELS 1 Yposition
                    JOINT Frame
                    {
                        OFFSET 3.492821 -421.0 -375.0
                        CHANNELS 4 Xrotation Xposition Xposition Xposition
                        JOINT Z9
                        {
                            OFFSET -276.0 -0.875 101.0
                            CHANNELS 7 Zposition Zposition Zposition Zposition Yposition Xposition Zposition
                            JOINT Frame
                            {
                                OFFSET -52.462746 -169.915932 -404.0
                                CHANNELS 6 Zposition Yposition Zrotation Xposition Zposition Yrotation
                                JOINT MOTION
                                {
                                    OFFSET 0.988 439.0 -626.451838894227
                                    CHANNELS 9 Zposition Yposition Yrotation Xrotation Yposition Yrotation Zposition Xrotation Yposition
                                }
                            }
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 0.000000001499
        -1.0 0.409 24.0 0.031 321.899195 129.0 16777217.0 -0.516 -64.0 -150.104064 31.0 -120.0 0.0 -228.404205 -270.908758 16777217.0 -476.0 -254.148565 0.474 1e-45 713.770622401063 -389.285010705752 113.317035192363 434.0 0.0 -915.424514458152 -0.0 120.246989 227.428796 -425.0 1.0 0.165 232.894853 414.0 109.251936 1e-45 9.524098 307.920101 -380.0 -0.0 -200.103028 -3.4028235e38
    }
}
#[inline(never)]
fn lit27() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT MOTION
        {
            OFFSET -147.0 143.281795 310.0
            CHANNELS 3 Xposition Zrotation Zposition
            End Site
            {
                OFFSET 0.846 171.0 -0.661
            }
        }
        MOTION
        Frames: 3
        Frame Time: 12
        0.5 -190.180948 -178.331227
        -42.341154 1e-45 131.0
        266.0 -0.904 99.506900
    }
}
#[inline(never)]
fn lit28() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT Frame
        {
            OFFSET 0.244 1.0 260.0
            CHANNELS 3 Yposition Yrotation Xrotation
            JOINT mod
            {
                OFFSET -0.347 0.0 60.0
                CHANNELS 3 Yposition Zposition Xrotation
                JOINT Xposition
                {
                    OFFSET 72.919113061062 32.086604 -298.062820
                    CHANNELS 1 Xposition
                    JOINT HIERARCHY
                    {
                        OFFSET -847.399238970218 1.0 -0.636
                        CHANNELS 2 Xrotation Xrotation
                        JOINT ROOT
                        {
                            OFFSET 1e-3 -0.245 -17.182574
                            CHANNELS 6 Xposition Yposition Xrotation Zposition Zrotation Yrotation
                            JOINT Frame
                            {
                                OFFSET 475.0 -39.0 411.0
                                CHANNELS 0
                                End Site
                                {
                                    OFFSET -200.0 -267.900236 242.501242
                                }
                            }
                            JOINT Frame
                            {
                                OFFSET 1.0 -0.266 275.0
                                CHANNELS 0
                                End Site
                                {
                                    OFFSET -0.598 -232.0 -770.309622896558
                                }
                            }
                            JOINT Left_Toe_Base_of_the_Skeleton_of_a_very_large_animal
                            {
                                OFFSET 404.0 -497.0 -10.239456435747
                                CHANNELS 0
                                End Site
                                {
                                    OFFSET -2.5E4 -51.265010213242 0.602
                                }
                            }
                        }
                        JOINT ÅngStröm
                        {
                            OFFSET 828.725116606543 -323.0 732.692965849034
                            CHANNELS 2 Yrotation Zposition
                            JOINT OFFSET
                            {
                                OFFSET -165.932247 0.0 1.0
                                CHANNELS 0
                                End Site
                                {
                                    OFFSET 1e-45 230.042826 -197.0
                                }
                            }
                        }
                    }
                }
                JOINT a
                {
                    OFFSET 428.0 0.5 -1.0
                    CHANNELS 3 Xposition Xposition Yrotation
                    JOINT Xposition
                    {
                        OFFSET 35.0 292.0 248.0
                        CHANNELS 6 Zposition Xrotation Xrotation Xposition Yrotation Xrotation
                        JOINT Frames
                        {
                            OFFSET 436.210419048938 -0.401 -148.0
                            CHANNELS 3 Zposition Zrotation Yposition
                            JOINT ROOT
                            {
                                OFFSET -89.016469 395.0 -36.847295
                                CHANNELS 6 Yrotation Yposition Xrotation Yrotation Zposition Zposition
                                End Site
                                {
                                    OFFSET -341.877574 -140.332293 -137.135969
                                }
                            }
                            JOINT Z9
                            {
                                OFFSET 87.0 -329.0 308.533313
                                CHANNELS 0
                                End Site
                                {
                                    OFFSET 1e-3 149.157383 -179.251225
                                }
                            }
                        }
                    }
                }
            }
            JOINT ÅngStröm
            {
                OFFSET -0.389 -491.826939286109 0.185
                CHANNELS 2 Xposition Zposition
                JOINT JOINT
                {
                    OFFSET 0.962 0.978 0.739
                    CHANNELS 3 Xrotation Zrotation Yposition
                    End Site
                    {
                        OFFSET -122.0 1.0 -0.0
                    }
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 86400.25
        170.0 -442.0 0.436 -48.0 282.690548 3.4028235e38 1.17549435e-38 150.0 240.0 -42.031556026299 430.0 -0.351 0.191 -0.697 496.0 -380.0 -84.0 341.0 -3.4028235e38 -283.0 281.0 0.353 -8.956814 -314.919204 -68.491889 357.0 301.058483 9.081313 -321.0 -378.0 0.659 0.596 1.0 -204.362978 181.0 189.518217 0.156 -0.194 -208.243389 264.0
    }
}
#[inline(never)]
fn lit29() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT Site
        {
            OFFSET -0.0 -482.0 -283.0
            CHANNELS 1 Yposition
            JOINT OFFSET
            {
                OFFSET 188.773966 -0.0 470.0
                CHANNELS 0
                JOINT ÅngStröm
                {
                    OFFSET -333.483573 437.667771225880 -0.105
                    CHANNELS 6 Yrotation Xrotation Xposition Yposition Zposition Zrotation
                    JOINT Z9
                    {
                        OFFSET -144.326020 346.956841 0.0
                        CHANNELS 2 Zposition Xposition
                        End Site
                        {
                            OFFSET 0.610 16777217.0 -177.0
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 2
        Frame Time: 1
        -209.763363 -280.0 -857.729057051342 -394.0 -112.0 0.377 -346.854419 175.0 1.0
        -0.240 964.480597044184 0.003 1.17549435e-38 130.0 20.0 212.222897 -0.0 -68.769990
    }
}
#[inline(never)]
fn lit30() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT Frame
        {
            OFFSET -250.303324963802 -0.443 321.0
            CHANNELS 3 Zposition Zrotation Yposition
            JOINT Left_Toe_Base_of_the_Skeleton_of_a_very_large_animal
            {
                OFFSET 156.0 1e-3 221.927867
                CHANNELS 1 Yposition
                JOINT bvh
                {
                    OFFSET 0.027 -154.0 244.674389
                    CHANNELS 6 Xposition Yrotation Yposition Zposition Xrotation Zrotation
                    JOINT End
                    {
                        OFFSET 0.682 -350.0 -199.0
                        CHANNELS 1 Zposition
                        End Site
                        {
                            OFFSET 33554433.0 -119.0 -181.0
                        }
                    }
                }
            }
            JOINT head
            {
                OFFSET 1e-3 77.348610 0.0
                CHANNELS 6 Zrotation Zposition Yrotation Xposition Xrotation Yposition
                End Site
                {
                    OFFSET -0.0 -81.211260 292.0
                }
            }
        }
        MOTION
        Frames: 5
        Frame Time: 1
        -299.0 -107.960295 56.0 293.580898 -0.560 432.0 89.0 -377.0 0.0 -88.0 -482.920009146842 -405.0 -264.185624 -0.580 170.106010 343.0 -232.741456
        157.0 -0.776 0.730 -333.0 -0.541 -148.0 -815.768569519293 -0.585 0.30000001 127.409384 0.0 -467.631944330214 -152.696415 -267.725030 99.0 144.0 -0.772
        -0.140 -218.0 467.188088993753 -0.799 0.021 301.127696 0.720 176.0 324.0 186.0 -286.0 0.5 6.0 -0.510 -188.0 97.0 -1.0
        0.0 483.331682116647 -32.886982 22.0 -1.0 0.5 0.5 1.0 -0.660 -467.0 -297.141299 -174.462274 297.136311 -67.462068 -3.4028235e38 11.0 86.019028
        -988.172674754873 282.0 -459.0 176.728142963503 242.0 -0.016 165.776730 -401.0 402.0 -210.0 -2.5E4 -572.500415411452 -0.0 805.712627297247 93.315666 0.1 178.0
    }
}
#[inline(never)]
fn lit31() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT Frame
        {
            OFFSET 342.900393032842 0.1 -139.0
            CHANNELS 2 Yrotation Xposition
            JOINT fn
            {
                OFFSET 129.0 457.0 0.0
                CHANNELS 3 Zrotation Xposition Xrotation
                JOINT Site
                {
                    OFFSET -168.633488 446.0 -35.0
                    CHANNELS 3 Yposition Zrotation Zposition
                    End Site
                    {
                        OFFSET 251.255899 -311.0 0.0
                    }
                }
            }
        }
        MOTION
        Frames: 3
        Frame Time: 0.0083333333
        33.0 399.0 0.795 0.0 -0.466 -486.0 -0.0 0.0
        134.782539 -326.024452 -103.945611 67.750121 0.5 -101.0 33554433.0 487.0
        0.30000001 -94.0 393.485168814221 286.448333 -1.0 141.182735 317.0 16.898705
    }
}
#[inline(never)]
fn lit32() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT Site
        {
            OFFSET 168.927126 -231.535123 -95.827816
            CHANNELS 1 Zrotation
            JOINT Frames
            {
                OFFSET 33554433.0 160.733954 -162.0
                CHANNELS 6 Xposition Zrotation Xrotation Yrotation Yposition Yrotation
                JOINT HEAD
                {
                    OFFSET 537.571626698155 882.797644332572 -0.518
                    CHANNELS 6 Zrotation Zposition Yrotation Xposition Xrotation Yposition
                    JOINT mod
                    {
                        OFFSET -175.842550884810 -0.192 -970.227210608271
                        CHANNELS 3 Zrotation Xrotation Zposition
                        JOINT Left_Toe_Base_of_the_Skeleton_of_a_very_large_animal
                        {
                            OFFSET 242.792921 358.0 -0.396
                            CHANNELS 3 Yposition Xrotation Yrotation
                            JOINT bvh
                            {
                                OFFSET -11.0 0.048 -223.251802
                                CHANNELS 1 Zposition
                                JOINT Hips
                                {
                                    OFFSET -140.851022 58.0 0.0
                                    CHANNELS 3 Xposition Xrotation Yrotation
                                    JOINT ÅngStröm
                                    {
                                        OFFSET 320.0 185.619562 0.30000001
                                        CHANNELS 3 Zposition Zrotation Xposition
                                        JOINT HIERARCHY
                                        {
                                            OFFSET -2.5E4 1.0 -0.688
                                            CHANNELS 3 Zposition Zrotation Yrotation
                                            JOINT Site
                                            {
                                                OFFSET 184.204172 169.649335 397.0
                                                CHANNELS 0
                                                JOINT head
                                                {
                                                    OFFSET 294.0 -2.5E4 399.0
                                                    CHANNELS 3 Xposition Yposition Zposition
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 1e-9
        -253.703195 -477.0 942.251095984796 -0.539 68.002330 -455.0 -325.0 -204.0 -85.974606 0.687 -153.192719 0.057 -12.0 -187.928454 159.0 359.0 -0.737 -473.0 498.0 -163.0 -1.0 0.174 364.0 -17.627079 139.893680 340.229229 272.129271 -206.099676 141.594933 319.0 73.0 -5.0
    }
}
#[inline(never)]
fn lit33() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT fn
        {
            OFFSET -334.290741 285.328047093142 -353.0
            CHANNELS 6 Zrotation Yposition Xposition Xrotation Zrotation Xposition
            JOINT head
            {
                OFFSET -877.946405937657 0.535 -0.177
                CHANNELS 2 Yposition Zposition
                End Site
                {
                    OFFSET -0.410 75.947637 246.878631
                }
            }
            JOINT Frames
            {
                OFFSET 433.0 8388609.5 138.0
                CHANNELS 0
            }
            JOINT builder
            {
                OFFSET 0.625 0.368 84.0
                CHANNELS 6 Xposition Yrotation Yposition Xrotation Yposition Xposition
                End Site
                {
                    OFFSET -0.988 0.1 261.0
                }
            }
            JOINT Chest
            {
                OFFSET 0.0 -0.179 -71.304510
                CHANNELS 2 Yposition Yposition
            }
            JOINT Time
            {
                OFFSET -0.0 -0.275 0.153
                CHANNELS 3 Zposition Xrotation Zposition
                End Site
                {
                    OFFSET -1.0 218.0 -1.0
                }
            }
            JOINT OFFSET
            {
                OFFSET -479.0 0.701 -345.0
                CHANNELS 6 Zrotation Xrotation Xposition Yposition Yrotation Zposition
                End Site
                {
                    OFFSET 0.478 -249.0 8388609.5
                }
            }
            JOINT Site
            {
                OFFSET 401.514621214886 -0.036 134.384859
                CHANNELS 3 Zposition Yrotation Zrotation
                End Site
                {
                    OFFSET 188.657916 0.558 -214.212261828525
                }
            }
            JOINT Site
            {
                OFFSET 33554433.0 -845.122686907268 40.0
                CHANNELS 3 Yposition Zposition Zrotation
                End Site
                {
                    OFFSET -434.0 1e-45 242.0
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 2.5
        214.0 1.0 175.874504 -355.699952 -84.256133 -0.231 -0.0 -0.337 -2.5E4 -41.0 451.928389614465 -2.5E4 -151.0 0.0 -0.420 -2.5E4 255.0 0.378 -60.0 16777217.0 1e-3 -0.463 0.30000001 -304.0 16777217.0 -244.0 -0.567 -309.209239 -316.595684 324.842860 0.811
    }
}
#[inline(never)]
fn lit34() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT Hips
        {
            OFFSET 0.285 356.837187 194.0
            CHANNELS 2 Xposition Zposition
            JOINT ÅngStröm
            {
                OFFSET 163.657335 352.531469 354.321172
                CHANNELS 3 Yposition Zrotation Zposition
                JOINT CHANNELS
                {
                    OFFSET 173.563698 -312.916053 540.190913059112
                    CHANNELS 3 Yposition Yposition Xrotation
                    JOINT bvh
                    {
                        OFFSET 674.269017784967 -80.0 -354.0
                        CHANNELS 4 Xposition Zrotation Yposition Yposition
                        JOINT builder
                        {
                            OFFSET 85.279458 -429.0 -0.186
                            CHANNELS 8 Yposition Zrotation Xposition Xposition Yposition Xposition Yposition Xrotation
                            JOINT ÅngStröm
                            {
                                OFFSET -278.881620 1.0 98.810448
                                CHANNELS 2 Zposition Yposition
                                End Site
                                {
                                    OFFSET -429.0 -0.071 -354.086120
                                }
                            }
                            JOINT a
                            {
                                OFFSET 8388609.5 79.091352 16777217.0
                                CHANNELS 0
                                End Site
                                {
                                    OFFSET 356.0 -303.018588 18.0
                                }
                            }
                        }
                    }
                }
            }
            JOINT MOTION
            {
                OFFSET 701.396776601807 -421.0 0.930
                CHANNELS 5 Zposition Xrotation Xposition Zrotation Yrotation
                JOINT Z9
                {
                    OFFSET 0.244 191.0 -456.974487384512
                    CHANNELS 5 Yrotation Xposition Yrotation Zposition Yposition
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 0.000000001499
        -1.0 -238.0 -41.0 66.0 0.30000001 736.088611518441 -17.0 0.337 -761.988083824798 -230.305333 -65.093937 -1.0 0.30000001 29.0 -3.4028235e38 -0.473 -679.730380490046 -114.822395 -13.0 -0.0 3.859488 195.0 138.0 346.0 8388609.5 439.0 -1.443809 -252.0 -127.0 352.035898 127.0 1.17549435e-38
    }
}
#[inline(never)]
fn lit35() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT CHANNELS
        {
            OFFSET 931.712064714434 -152.935132 -100.606620
            CHANNELS 3 Zposition Xposition Xrotation
            End Site
            {
                OFFSET 0.0 -136.608852 205.502046
            }
        }
        MOTION
        Frames: 1
        Frame Time: 0.5
        -182.0 203.0 0.1
    }
}
#[inline(never)]
fn lit36() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT JOINT
        {
            OFFSET -1.0 340.0 -654.754623593871
            CHANNELS 6 Zrotation Zrotation Xrotation Yposition Yposition Xrotation
            JOINT OFFSET
            {
                OFFSET 92.225758 -419.0 -189.780468
                CHANNELS 6 Xposition Xposition Yrotation Yposition Zposition Yposition
                JOINT ÅngStröm
                {
                    OFFSET -425.0 -110.676181 -0.423
                    CHANNELS 3 Zposition Zrotation Xrotation
                    JOINT fn
                    {
                        OFFSET 0.0 -0.357 163.570120
                        CHANNELS 2 Yposition Zrotation
                        JOINT Site
                        {
                            OFFSET -304.633421414144 -172.169459 33554433.0
                            CHANNELS 3 Zposition Zrotation Yposition
                            JOINT CHANNELS
                            {
                                OFFSET -271.387054633696 1.17549435e-38 77.0
                                CHANNELS 3 Zrotation Yposition Xrotation
                                End Site
                                {
                                    OFFSET 3.4028235e38 969.797030206110 398.0
                                }
                            }
                        }
                    }
                }
                JOINT Time
                {
                    OFFSET 0.249 -319.172821 -205.0
                    CHANNELS 1 Xrotation
                    JOINT End
                    {
                        OFFSET -271.0 688.640645843055 -783.609104876198
                        CHANNELS 6 Xrotation Yrotation Yposition Zposition Zrotation Yposition
                        JOINT Frames
                        {
                            OFFSET 307.546264345935 344.0 -2.5E4
                            CHANNELS 0
                            JOINT Chest
                            {
                                OFFSET -458.0 -279.722189 -196.199157
                                CHANNELS 3 Yposition Zrotation Yrotation
                            }
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 0.5
        -46.026377 63.363157 3.4028235e38 366.0 39.0 0.5 55.0 0.5 0.533 0.738 -206.0 0.0 162.0 1.17549435e-38 105.623763 0.119 -121.0 440.0 -316.990779 -0.694 192.0 324.297552 -24.309839 0.125 -239.0 348.751008 439.0 -0.997 0.613 321.0 -223.736229 1.0 286.616707
    }
}
#[inline(never)]
fn lit37() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT Left_Toe_Base_of_the_Skeleton_of_a_very_large_animal
        {
            OFFSET 0.5 71.634448 -3.4028235e38
            CHANNELS 0
            JOINT Hips
            {
                OFFSET 0.524 3.4028235e38 -298.393449
                CHANNELS 3 Xrotation Yrotation Yposition
                JOINT HEAD
                {
                    OFFSET 80.177995 -280.244555524771 -174.268103
                    CHANNELS 1 Xposition
                    JOINT mod
                    {
                        OFFSET 68.0 0.362 1e-3
                        CHANNELS 3 Xposition Zrotation Yrotation
                        JOINT bvh
                        {
                            OFFSET -210.108700 -0.897 33554433.0
                            CHANNELS 3 Zposition Yposition Xrotation
                            JOINT bvh
                            {
                                OFFSET 226.0 1e-3 3.4028235e38
                                CHANNELS 2 Yposition Zrotation
                                End Site
                                {
                                    OFFSET -256.0 -108.0 -80.696036
                                }
                            }
                            JOINT Z9
                            {
                                OFFSET -0.0 0.569 0.834
                                CHANNELS 0
                                End Site
                                {
                                    OFFSET -79.955734 -413.0 0.514
                                }
                            }
                        }
                        JOINT _x1
                        {
                            OFFSET 341.0 -2.357728 -315.106785
                            CHANNELS 2 Yposition Zposition
                            JOINT ÅngStröm
                            {
                                OFFSET 0.402876 -38.0 -207.463882
                                CHANNELS 1 Xposition
                            }
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 0
        Frame Time: 12
    }
}
#[inline(never)]
fn lit38() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT JOINT
        {
            OFFSET 1e-45 8388609.5 356.0
            CHANNELS 3 Zposition Xposition Xrotation
            JOINT bvh
            {
                OFFSET 0.1 -2.5E4 -149.306917
                CHANNELS 6 Yrotation Xrotation Xposition Zposition Zrotation Yposition
                JOINT Frame
                {
                    OFFSET 16777217.0 176.554437 -477.0
                    CHANNELS 0
                    End Site
                    {
                        OFFSET 0.145 69.591110 91.300986
                    }
                }
            }
        }
        MOTION
        Frames: 2
        Frame Time: 0.5
        -0.131 344.222026 0.968 0.30000001 -328.036526 -877.980535886143 455.0 141.0 0.0
        1e-3 0.787 0.377 -188.932541 -0.0 116.755161 195.0 0.5 -232.072325
    }
}
#[inline(never)]
fn lit39() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT builder
        {
            OFFSET 390.452486381029 -342.0 264.746154
            CHANNELS 6 Zrotation Zrotation Yrotation Yrotation Yposition Zrotation
            JOINT Hips
            {
                OFFSET -73.165405 0.989 128.0
                CHANNELS 2 Zrotation Zposition
                End Site
                {
                    OFFSET -490.0 0.468 -99.0
                }
            }
        }
        MOTION
        Frames: 5
        Frame Time: 0.033333333333
        -108.0 -1.0 0.638 90.427197 0.30000001 157.0 -284.237796537982 0.851
        -3.4028235e38 -304.049559 -0.179 -248.299832 493.064126439347 -479.890251210221 316.354747 -11.0
        128.0 0.876 8388609.5 325.0 0.837 -199.168963 -0.318 385.0
        0.5 -76.0 0.418 -1.0 412.0 54.228192 -242.955372 495.0
        -270.101039 -344.0 284.0 368.0 -170.668908 183.894455 -0.730 -1.0
    }
}
#[inline(never)]
fn lit40() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT HIERARCHY
        {
            OFFSET 0.354 0.30000001 -264.654461
            CHANNELS 3 Xrotation Yrotation Xposition
            JOINT Hips
            {
                OFFSET -0.0 369.0 411.0
                CHANNELS 1 Xposition
                JOINT HEAD
                {
                    OFFSET -1.0 434.0 270.0
                    CHANNELS 0
                    JOINT _x1
                    {
                        OFFSET -0.463 134.108364 -94.561202
                        CHANNELS 3 Xposition Yposition Yrotation
                        JOINT HEAD
                        {
                            OFFSET -0.576 3.4028235e38 -190.907083
                            CHANNELS 3 Yposition Zrotation Zposition
                            JOINT HEAD
                            {
                                OFFSET -158.527695 122.0 -0.0
                                CHANNELS 3 Xrotation Yrotation Xposition
                                JOINT Frame
                                {
                                    OFFSET 204.0 -807.911114538866 759.219728373808
                                    CHANNELS 6 Zposition Xrotation Zrotation Yrotation Xposition Yposition
                                    JOINT Hips
                                    {
                                        OFFSET -264.133323 -451.0 -25.738816
                                        CHANNELS 6 Zrotation Xrotation Yrotation Yposition Xposition Xrotation
                                        JOINT CHANNELS
                                        {
                                            OFFSET 0.627 -109.257556 -0.0
                                            CHANNELS 3 Xposition Zrotation Yrotation
                                            JOINT Xposition
                                            {
                                                OFFSET 80.0 -0.767 -192.0
                                                CHANNELS 6 Yposition Xrotation Xposition Yposition Zrotation Zrotation
                                                JOINT OFFSET
                                                {
                                                    OFFSET 236.649562 111.0 -0.722
                                                    CHANNELS 3 Zposition Xrotation Yrotation
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 2
        Frame Time: 0.033333333333
        325.0 -98.730561 0.661 273.605189 303.215987 16777217.0 -0.219 -246.928351 -109.0 3.4028235e38 280.936519 324.945901 -78.235474 0.021 253.702348 -177.497646 -157.824536 1.17549435e-38 1.17549435e-38 -735.153294505336 -0.0 363.0 -190.238908 54.0 -470.0 -0.409 -469.0 309.720069 209.212846 0.361 -349.0 121.619005 374.427655738532 0.061 -136.0 -445.0 -270.0
        -175.0 -716.005146498475 -67.0 0.027 -257.265606 0.0 1.17549435e-38 -107.620247 -452.0 -110.139387 -0.359 1.0 0.484 -0.652 7.0 16777217.0 -359.934407 81.457650845769 830.538593582655 353.0 191.488307 -422.154168808563 -153.0 176.964149 0.248 3.4028235e38 0.1 -163.0 0.0 -151.0 0.047 1.0 242.054348 0.5 174.625651493446 -3.4028235e38 8388609.5
    }
}
#[inline(never)]
fn lit41() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT Time
        {
            OFFSET 306.279791 334.0 -53.373201
            CHANNELS 1 Zposition
            JOINT End
            {
                OFFSET 4.471928 254.0 0.5
                CHANNELS 2 Yrotation Zrotation
                End Site
                {
                    OFFSET -19.0 -147.719409 -12.276724
                }
            }
            JOINT Hips
            {
                OFFSET 0.559 -237.992922 -826.119269601695
                CHANNELS 3 Zposition Yposition Xposition
                End Site
                {
                    OFFSET 0.939 0.618 8388609.5
                }
            }
            JOINT End
            {
                OFFSET 298.996384 118.0 -97.340286
                CHANNELS 1 Zrotation
                End Site
                {
                    OFFSET 165.0 -56.0 69.0
                }
            }
            JOINT Chest
            {
                OFFSET -0.619 -276.375104156995 0.0
                CHANNELS 6 Xposition Xposition Yposition Yposition Xposition Zposition
                End Site
                {
                    OFFSET -89.693106814043 401.0 0.0
                }
            }
            JOINT mod
            {
                OFFSET 469.0 165.0 -171.166265219785
                CHANNELS 3 Xrotation Yrotation Yposition
                End Site
                {
                    OFFSET -477.0 -711.644694389573 -19.786496
                }
            }
            JOINT MOTION
            {
                OFFSET -985.799484988286 290.922372 -256.0
                CHANNELS 6 Zposition Zposition Xrotation Xrotation Yposition Zposition
                End Site
                {
                    OFFSET 476.0 0.965 1e-3
                }
            }
            JOINT Neck
            {
                OFFSET -212.070253 137.0 301.0
                CHANNELS 3 Zposition Yrotation Zposition
                End Site
                {
                    OFFSET 1e-3 293.692628 -16.108329
                }
            }
            JOINT Hips
            {
                OFFSET -98.006819 0.0 137.011819
                CHANNELS 0
                End Site
                {
                    OFFSET 223.562774 0.533 -88.114585
                }
            }
        }
        MOTION
        Frames: 1
        Frame Time: 12
        -0.925 0.1 787.662900781987 8388609.5 -22.0 352.0 -43.0 182.901505 0.817 144.0 195.0 278.0 -0.185 0.923 -79.0 -68.0 0.006 107.0 1.0 348.0 94.0 0.30000001 -1.0 160.324086 0.30000001
    }
}
#[inline(never)]
fn lit42() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT JOINT
        {
            OFFSET 27.0 -2.5E4 -174.0
            CHANNELS 4 Zrotation Xposition Zposition Yrotation
            JOINT OFFSET
            {
                OFFSET 341.024783 -0.841 -3.4028235e38
                CHANNELS 0
                JOINT HIERARCHY
                {
                    OFFSET 198.142248 0.592 -0.022
                    CHANNELS 3 Xrotation Yrotation Zposition
                    End Site
                    {
                        OFFSET 326.911767 0.498 -3.4028235e38
                    }
                }
            }
        }
        MOTION
        Frames: 0
        Frame Time: 1
    }
}
#[inline(never)]
fn lit43() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT ÅngStröm
        {
            OFFSET -889.855683906556 275.354418 -422.310499097412
            CHANNELS 3 Zposition Yposition Yposition
        }
        MOTION
        Frames: 1
        Frame Time: 1
        -399.0 607.256027788777 -387.0
    }
}
#[inline(never)]
fn lit44() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT fn
        {
            OFFSET -1.0 -0.994 -200.0
            CHANNELS 3 Zposition Zposition Yrotation
            JOINT HEAD
            {
                OFFSET -519.973187639849 -334.0 -343.0
                CHANNELS 3 Yposition Zposition Zposition
                JOINT head
                {
                    OFFSET -175.597483 -475.0 843.061839886753
                    CHANNELS 3 Yrotation Yposition Xrotation
                    JOINT mod
                    {
                        OFFSET 0.128 318.561949 183.487005
                        CHANNELS 1 Zrotation
                        JOINT JOINT
                        {
                            OFFSET -96.0 -50.0 968.698066708730
                            CHANNELS 2 Xposition Zrotation
                            JOINT Chest
                            {
                                OFFSET 0.5 -2.5E4 -0.494
                                CHANNELS 0
                            }
                        }
                    }
                }
                JOINT Chest
                {
                    OFFSET 371.0 -0.696 -188.739048
                    CHANNELS 0
                    JOINT ROOT
                    {
                        OFFSET -301.0 0.292 -0.535
                        CHANNELS 0
                        JOINT bvh
                        {
                            OFFSET 64.930110 0.694 -73.0
                            CHANNELS 3 Zrotation Xrotation Yposition
                            JOINT Chest
                            {
                                OFFSET 294.0 -95.0 -633.871340888372
                                CHANNELS 3 Xrotation Zposition Yrotation
                            }
                            JOINT mod
                            {
                                OFFSET 318.843043823713 0.280 -108.995833
                                CHANNELS 1 Xposition
                                End Site
                                {
                                    OFFSET 188.0 -314.883480 -0.184
                                }
                            }
                        }
                        JOINT ÅngStröm
                        {
                            OFFSET -0.462 1e-3 50.882807
                            CHANNELS 6 Zrotation Xposition Xposition Yrotation Zposition Zrotation
                            JOINT Z9
                            {
                                OFFSET 280.411354 0.0 498.0
                                CHANNELS 0
                            }
                            JOINT Hips
                            {
                                OFFSET -1.0 257.603391 213.0
                                CHANNELS 2 Xrotation Yposition
                                End Site
                                {
                                    OFFSET -352.0 0.0 52.0
                                }
                            }
                        }
                    }
                    JOINT a
                    {
                        OFFSET 285.317020 -609.408828854951 363.0
                        CHANNELS 0
                        JOINT OFFSET
                        {
                            OFFSET 0.30000001 -264.0 -967.026099686245
                            CHANNELS 3 Zposition Yposition Zrotation
                            JOINT Time
                            {
                                OFFSET -209.0 -324.207462819015 -318.745985055436
                                CHANNELS 6 Xposition Zposition Yrotation Zrotation Yposition Xrotation
                            }
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 0
        Frame Time: 2.5
    }
}
#[inline(never)]
fn lit45() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT Frames
        {
            OFFSET -0.854 -23.172102774770 8388609.5
            CHANNELS 3 Zrotation Yposition Xposition
            JOINT _x1
            {
                OFFSET -0.0 1.17549435e-38 202.667966
                CHANNELS 3 Yrotation Zposition Zposition
                End Site
                {
                    OFFSET -2.5E4 -294.0 1e-45
                }
            }
        }
        MOTION
        Frames: 5
        Frame Time: 0.0
        97.769471 -182.474233 -51.283769 479.0 -499.0 401.0
        -51.0 343.0 -336.432634 0.1 272.0 -119.751506
        60.586888 325.0 184.431072 266.411856 -44.704850 371.0
        -0.0 1e-3 -281.294727 -375.0 477.0 -0.516
        1e-3 672.745503388578 1.17549435e-38 -0.154 0.328 24.535706
    }
}
#[inline(never)]
fn lit46() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT fn
        {
            OFFSET 1.17549435e-38 0.227 -42.428167005379
            CHANNELS 6 Zposition Zposition Zposition Xposition Xposition Yposition
            JOINT ROOT
            {
                OFFSET -1.0 60.0 -10.086937
                CHANNELS 3 Xposition Zposition Xrotation
                JOINT mod
                {
                    OFFSET 329.0 -255.0 172.999232
                    CHANNELS 3 Xposition Zrotation Zposition
                    JOINT Xposition
                    {
                        OFFSET -378.231654799397 -378.0 -5.993534
                        CHANNELS 3 Yrotation Xposition Zposition
                        JOINT builder
                        {
                            OFFSET -89.024072 104.0 34.897204
                            CHANNELS 3 Zrotation Xrotation Zposition
                            JOINT Chest
                            {
                                OFFSET 10.0 94.212394 212.535102
                                CHANNELS 2 Xposition Yposition
                                End Site
                                {
                                    OFFSET 333.0 417.0 22.312884
                                }
                            }
                        }
                        JOINT builder
                        {
                            OFFSET 1e-45 255.051468 8388609.5
                            CHANNELS 2 Zrotation Zposition
                            End Site
                            {
                                OFFSET -0.0 0.1 0.308
                            }
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 0
        Frame Time: 86400.25
    }
}
#[inline(never)]
fn lit47() -> (Bvh, &'static str) {
    lit! {
        HIERARCHY
        ROOT OFFSET
        {
            OFFSET -0.782 0.1 -774.233282951745
            CHANNELS 3 Zrotation Xposition Xrotation
            JOINT Neck
            {
                OFFSET -135.649881 855.674749843410 398.0
                CHANNELS 2 Yposition Zrotation
                JOINT bvh
                {
                    OFFSET -46.0 0.233 -437.0
                    CHANNELS 0
                    JOINT Frame
                    {
                        OFFSET 240.0 0.976 -0.0
                        CHANNELS 3 Xrotation Xposition Yrotation
                        JOINT HEAD
                        {
                            OFFSET 431.0 100.407153 -425.0
                            CHANNELS 6 Xposition Xrotation Yrotation Zposition Zrotation Yposition
                            End Site
                            {
                                OFFSET -1.0 -98.526485 1.0
                            }
                        }
                    }
                }
            }
        }
        MOTION
        Frames: 5
        Frame Time: 2.5
        100.0 35.0 7.783362 256.0 178.0 335.0 48.0 146.0 -0.109 207.0 285.996727 -84.780346 -406.0 339.0
        -69.0 0.262 217.0 158.0 -355.566906 75.0 127.089607 0.5 491.0 475.886594211308 0.265 0.922 0.0 -389.0
        238.035050 1.0 266.0 -369.0 -328.0 33554433.0 255.771684 0.0 131.0 1e-45 -91.551803 -196.288971 -293.0 0.279
        16777217.0 0.603 -146.0 -3.4028235e38 1.17549435e-38 -0.737 343.372066 0.708 -552.022647451928 -301.0 -466.878404637077 214.929941 -0.559 -546.967427798636
        -78.102926 212.0 99.069106 0.5 8388609.5 3.4028235e38 -87.0 -269.690737 33554433.0 -3.4028235e38 -324.0 213.0 -421.679941305628 -981.718815258995
    }
}
pub fn literal(i: usize) -> (Bvh, &'static str) {
    [lit0, lit1, lit2, lit3, lit4, lit5, lit6, lit7, lit8, lit9, lit10, lit11, lit12, lit13, lit14, lit15, lit16, lit17, lit18, lit19, lit20, lit21, lit22, lit23, lit24, lit25, lit26, lit27, lit28, lit29, lit30, lit31, lit32, lit33, lit34, lit35, lit36, lit37, lit38, lit39, lit40, lit41, lit42, lit43, lit44, lit45, lit46, lit47][i]()
}
/// Literals without a skeleton, each with its frame time in nanoseconds.
pub fn bare(i: usize) -> (Bvh, u64) {
    match i {
        0 => (bvh! {}, 0),
        1 => (bvh! { HIERARCHY MOTION }, 0),
        2 => (bvh! { HIERARCHY MOTION Frames: 0 }, 0),
        3 => (bvh! { HIERARCHY MOTION Frames: 0 Frame Time: 0.25 }, 250_000_000),
        _ => (bvh! { HIERARCHY MOTION Frames: 0 Frame Time: 2 }, 2_000_000_000),
    }
}
