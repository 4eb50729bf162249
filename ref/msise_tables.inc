// The coefficients of NRLMSISE-00.
static const double PTM[10] = {1041.3,386,195,16.672799999999999,213,120,240,187,-2,0};
static const double PDM[8][10] = {{24560000,6.7107199999999997e-06,100,0,110,10,0,0,0,0},
{85940000000,1,105,-8,110,10,90,2,0,0},
{281000000000,0,105,28,28.949999999999999,0,0,0,0,0},
{33000000000,0.26827000000000001,105,1,110,10,110,-10,0,0},
{1330000000,0.0119615,105,0,110,10,0,0,0,0},
{176100,1,95,-8,110,10,90,2,0,0},
{10000000,1,105,-8,110,10,90,2,0,0},
{1000000,1,105,-8,550,76,90,2,0,4000}};
static const double PAVGM[10] = {261,264,229,217,217,223,286.75999999999999,-2.9394,2.5,0};
static const double PMA[10][100] = {{0.98163699999999998,-0.0014131700000000001,0.038732299999999997,0,0,0,0,0,0,-0.035870699999999998,-0.0086365799999999996,0,0,-2.0222600000000002,0,-0.0086942400000000006,
-0.019139699999999999,87.677899999999994,0.0045218799999999998,0,0.022376,0,0,0,0,0,-0.0070757199999999998,0,0,0,-0.0041120999999999996,35.006,
0,0,0,0,0,-0.0083665700000000003,16.134699999999999,0,0,0,0,0,0,0,0,-0.014513,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0.0012415200000000001,0.00064336500000000002,0,0,0,0,0,0,0,0,0.0013325500000000001,0.0024265699999999999,0.00160666,-0.00185728,-0.0014687400000000001,-4.7916300000000004e-06,
1.22464,35.350999999999999,0,0.44922299999999998,-47.746600000000001,0.47068100000000002,8.4186099999999993,-0.28819800000000001,167.85400000000001,0,0.000711493,0.00060560099999999999,0,0,0,0,
0,0,0,2},
{1.0042199999999999,-0.0071121200000000004,0.0052448,0,0,0,0,0,0,-0.052891399999999998,-0.024130100000000002,0,0,-21.221900000000002,-0.010383,-0.0032807700000000001,
0.016572699999999999,1.68564,-0.0066815399999999997,0,0.014515500000000001,0,0.0084236499999999995,0,0,0,-0.00434645,0,0,0.021677999999999999,0,-138.459,
0,0,0,0,0,0.00704573,-47.320399999999999,0,0,0,0,0,0,0,0,0.0108767,
0,0,0,0,0,0,0,0,0,0,0,-0.0080827899999999994,0,0,0,0,
0.00052176900000000005,-0.00022738700000000001,0,0,0,0,0,0,0,0,0.0032676900000000002,0.0031690099999999999,0.000460316,-0.000101431,0.0010213100000000001,0.00099660099999999995,
1.2570699999999999,25.011399999999998,0,0.42447200000000002,-27.765499999999999,0.34462500000000001,27.5412,0,794.25099999999998,0,0.0024583500000000002,0.00138871,0,0,0,0,
0,0,0,2},
{1.0188999999999999,-0.0246603,0.010007800000000001,0,0,0,0,0,0,-0.067097699999999996,-0.040228600000000003,0,0,-22.9466,-0.0074701899999999998,0.0022658000000000001,
0.026393099999999999,37.262500000000003,-0.00639041,0,0.0095838299999999998,0,0,0,0,0,-0.0018529099999999999,0,0,0,0,139.71700000000001,
0,0,0,0,0,0.0091977099999999996,-369.12099999999998,0,0,0,0,0,0,0,0,-0.015706700000000001,
0,0,0,0,0,0,0,0,0,0,0,-0.0070726499999999998,0,0,0,0,
-0.0029295300000000001,-0.0027773899999999998,-0.000440092,0,0,0,0,0,0,0,0.0024727999999999998,0.00029503500000000002,-0.0018124599999999999,0.0028194499999999998,0.0042729600000000001,0.00097886299999999996,
1.4054500000000001,-6.1917299999999997,0,0,-79.363200000000006,0.44464300000000001,-403.08499999999998,0,11.5603,0,0.0022506800000000001,0.000848557,-0.00029849299999999999,0,0,0,
0,0,0,2},
{0.97580100000000003,0.038067999999999998,-0.0305198,0,0,0,0,0,0,0.038557500000000001,0.050405699999999998,0,0,-176.04599999999999,0.014459400000000001,-0.0014829699999999999,
-0.0036855999999999998,30.218499999999999,-0.0032333800000000001,0,0.0153569,0,-0.0115558,0,0,0,0.0048961999999999999,0,0,-0.0100616,-0.0082132400000000001,-157.75700000000001,
0,0,0,0,0,0.0066356399999999999,45.841000000000001,0,0,0,0,0,0,0,0,-0.025128000000000001,
0,0,0,0,0,0,0,0,0,0,0,0.0099121499999999998,0,0,0,0,
-0.00087314800000000002,-0.00129648,-7.3202599999999996e-05,0,0,0,0,0,0,0,-0.0046810999999999997,-0.0046600299999999999,-0.0013156699999999999,-0.00073939000000000003,0.00063249900000000002,-0.00046558800000000002,
-1.2978499999999999,-157.13900000000001,0,0.25835000000000002,-36.945300000000003,0.41067199999999998,9.7819599999999998,-0.152064,-3850.8400000000001,0,-0.00085270599999999995,-0.00140945,-0.00072678599999999999,0,0,0,
0,0,0,2},
{0.96072199999999996,0.070375699999999999,-0.030026600000000001,0,0,0,0,0,0,0.022267100000000001,0.041042299999999997,0,0,-163.06999999999999,0.0106073,0.00054074699999999995,
0.0077948100000000001,144.90799999999999,0.00015148399999999999,0,0.0197547,0,-0.0141844,0,0,0,0.0057788400000000004,0,0,0.0097431900000000005,0,-2880.1500000000001,
0,0,0,0,0,-0.0044490199999999997,-29.276,0,0,0,0,0,0,0,0,0.023441900000000002,
0,0,0,0,0,0,0,0,0,0,0,0.0053668500000000003,0,0,0,0,
-0.00046532499999999999,-0.00055062799999999995,0.00033146500000000003,0,0,0,0,0,0,0,-0.00206179,-0.00308575,-0.00079358900000000003,-0.00010862900000000001,0.00059551099999999996,-0.00090505000000000002,
1.18997,41.592399999999998,0,-0.47206399999999998,-947.14999999999998,0.39872299999999999,19.830400000000001,0,3732.1900000000001,0,-0.0015004,-0.0011493300000000001,-0.00015676899999999999,0,0,0,
0,0,0,2},
{1.0312300000000001,-0.070512400000000003,0.0087161500000000006,0,0,0,0,0,0,-0.0382621,-0.0098097500000000008,0,0,28.928599999999999,0.0095734099999999992,0,
0,86.615300000000005,0.00079193799999999995,0,0,0,0.0046891700000000003,0,0,0,0.0078663799999999992,0,0,0.0099082700000000003,0,65.557299999999998,
0,0,0,0,0,0,-40.020000000000003,0,0,0,0,0,0,0,0,0.0070745699999999996,
0,0,0,0,0,0,0,0,0,0,0,0.00572268,0,0,0,0,
-0.00020497000000000001,0.0012156000000000001,-8.0557899999999993e-06,0,0,0,0,0,0,0,-0.0024994100000000001,-0.00045725600000000001,-0.00015931100000000001,0.00029648100000000002,-0.0017731800000000001,-0.00063791800000000001,
1.0239499999999999,12.8172,0,0.14990300000000001,-26.381799999999998,0,47.062800000000003,-0.222139,0.0482292,0,-0.00086707500000000003,-0.00058647899999999999,0.00053246200000000004,0,0,0,
0,0,0,2},
{1.0082800000000001,-0.091040399999999994,-0.022654899999999999,0,0,0,0,0,0,-0.023241999999999999,-0.0090892500000000001,0,0,33.610500000000002,0,0,
0,-12.495699999999999,-0.00587939,0,0,0,0,0,0,0,0,0,0,0,0,27.976500000000001,
0,0,0,0,0,0,2012.3699999999999,0,0,0,0,0,0,0,0,-0.017555299999999999,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0.0032969900000000001,0.0012665899999999999,0.000268402,0,0,0,0,0,0,0,0.0011789400000000001,0.0014874599999999999,0.00010647800000000001,0.00013474299999999999,-0.0022093899999999999,-0.00062352299999999996,
0.63653899999999997,11.3621,0,-0.39377699999999999,2386.8699999999999,0,661.86500000000001,-0.121434,9.2760800000000003,0,0.00016847800000000001,0.0012489199999999999,0.00171345,0,0,0,
0,0,0,2},
{1.5729299999999999,-0.6784,0.64749999999999996,0,0,0,0,0,0,-0.076297400000000001,-0.36042299999999999,0,0,128.358,0,0,
0,46.803800000000003,0,0,0,0,0,0,0,0,-0.16789799999999999,0,0,0,0,29099.400000000001,
0,0,0,0,0,0,31.570599999999999,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,2},
{0.86002800000000001,0.377052,0,0,0,0,0,0,0,-1.1757,0,0,0,0.0077775700000000001,0,0,
0,101.024,0,0,0,0,0,0,0,0,0,0,0,0,0,654.25099999999998,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,-0.015695899999999999,0.019100099999999998,0.031597100000000003,0.0100982,-0.0067156500000000001,0.0025769299999999998,
1.3869199999999999,0.28213199999999999,0,0,381.51100000000002,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,2},
{1.06029,-0.052523100000000003,0.37303399999999998,0,0,0,0,0,0,0.033107200000000003,-0.388409,0,0,-165.29499999999999,-0.21380099999999999,-0.043891600000000003,
-0.322716,-88.2393,0.11845799999999999,0,-0.435863,0,0,0,0,0,-0.119782,0,0,0,0,26.222899999999999,
0,0,0,0,0,0,-53.744300000000003,0,0,0,0,0,0,0,0,-0.45578800000000003,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0.038400900000000002,0.039673300000000002,0,0,0,0,0,0,0,0,0.050549400000000001,0.073961700000000005,0.019220000000000001,-0.0084615100000000002,-0.0134244,0.0196338,
1.50421,18.8368,0,0,-51.311399999999999,0,0,0,0,0,0.051192300000000003,0.036122500000000002,0,0,0,0,
0,0,0,2}};
static const double PD[9][150] = {{1.09979,-0.048806000000000002,-0.19750100000000001,-0.091027999999999998,-0.0069655799999999999,0.024213599999999998,0.39133299999999999,-0.0072006800000000001,-0.032271800000000003,1.4150799999999999,0.16819400000000001,0.018528200000000002,0.109384,-7.24282,0,0.296377,
-0.049721000000000001,104.114,-0.086110800000000001,-0.00072917700000000002,1.48998e-06,0.00108629,0,0,0.083109000000000002,0.112818,-0.057500500000000003,-0.012991900000000001,-0.017884899999999999,-2.86343e-06,0,-151.18700000000001,
-0.0066590199999999999,0,-0.0020206899999999999,0,0,0.043226399999999998,-28.0444,-0.0032678899999999999,0.0024746099999999999,0,0,0.098210000000000006,0.122714,-0.039645,0,-0.0027648899999999999,
0,0.0018772299999999999,-0.0080981300000000003,4.3442799999999997e-05,-0.0077093200000000004,0,-0.0022889400000000002,-0.0056906999999999999,-0.0052219299999999996,0.0060069199999999998,-7804.3400000000001,-0.00348336,-0.0063836199999999996,-0.0018219,0,-75.897599999999997,
-0.021787500000000001,-0.017252400000000001,-0.0090628700000000006,0,0.024472500000000001,0.086604,0.105712,30254.299999999999,0,0,0,-6013.6400000000003,-0.0056466800000000003,-0.0025415699999999999,0,315.61099999999999,
-0.0056915799999999999,0,0,-0.0044721600000000002,-0.0044952300000000002,0.0046442799999999998,0,0,0,0,0.0451236,0.024652,0.0061779399999999998,0,0,-0.36294399999999999,
-0.048002200000000002,-75.722999999999999,-0.0019965600000000001,0,-0.0051878000000000002,-0.017399000000000001,-0.0090348500000000005,0.0074846499999999998,0.0153267,0.010629599999999999,0.011865499999999999,0.0025556899999999998,0.0016902,0.035193599999999998,-0.0181242,0,
-0.10052899999999999,-0.0051057400000000001,0,0.0021022800000000002,0,0,-173.255,0.50783299999999998,-0.24140800000000001,0.0087541400000000005,0.0027752699999999998,-8.9035299999999998e-05,-5.2514799999999999,-0.0058389899999999996,-0.020912199999999999,-0.0096352999999999994,
0.0097716399999999998,0.0040705100000000003,0.00025355499999999998,-5.5287499999999996,-0.355993,-0.0024923100000000002,0,0,28.602599999999999,0,0.000342722,0,0,0,0,0,
0,0,0,0,0,0},
{1.02315,-0.15970999999999999,-0.10663,-0.017707400000000002,-0.0044272599999999997,0.034480299999999998,0.044561299999999998,-0.033375099999999998,-0.057359800000000002,0.35036,0.063305299999999995,0.021622099999999998,0.054257699999999999,-5.74193,0,0.19089100000000001,
-0.0139194,101.102,0.081636299999999995,0.00013371699999999999,6.5440299999999999e-06,0.0031029500000000002,0,0,0.0538205,0.12391000000000001,-0.0139831,0,0,-3.95915e-06,0,-0.71465100000000004,
-0.0050102699999999998,0,-0.00324756,0,0,0.044217300000000001,-13.159800000000001,-0.0031562600000000001,0.00124574,-0.0014762600000000001,-0.0015546100000000001,0.064068200000000006,0.13489799999999999,-0.024241499999999999,0,0,
0,0.00061366600000000002,-0.0054037299999999998,2.6163500000000001e-05,-0.0033301200000000002,0,-0.0030810099999999999,-0.0024267899999999999,-0.0033608599999999998,0,-1189.79,-0.050473799999999999,-0.0026154699999999999,-0.0010313200000000001,0.000191583,-83.813199999999995,
-0.0140517,-0.0114167,-0.0040801199999999996,0.00017352200000000001,-0.0139644,-0.066412799999999994,-0.068515199999999998,-13441.4,0,0,0,607.91600000000005,-0.0041222000000000003,-0.00220996,0,1702.77,
-0.0046301500000000004,0,0,-0.0022536000000000001,-0.00296204,0,0,0,0,0,0.039278599999999997,0.013118599999999999,-0.00178086,0,0,-0.39008300000000001,
-0.028474099999999999,-77.840000000000003,-0.0010260099999999999,0,-0.00072648500000000002,-0.00542181,-0.0055930499999999996,0.0122825,0.0123868,0.00668835,-0.010330300000000001,-0.0095190299999999995,0.00027002100000000001,-0.025708399999999999,-0.013243,0,
-0.038100000000000002,-0.0031681000000000001,0,0,0,0,0,0,0,-0.00090576199999999995,-0.0021459000000000001,-0.0011782400000000001,3.6673200000000001,-0.00037972899999999998,-0.0061396599999999999,-0.0050908200000000002,
-0.0019633200000000002,-0.0030828000000000001,-0.00097522199999999998,4.03315,-0.25270999999999999,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0},
{1.1611199999999999,0,0,0.033372499999999999,0,0.034863699999999997,-0.0054436800000000002,0,-0.067393999999999996,0.17475399999999999,0,0,0,174.71199999999999,0,0.12673300000000001,
0,103.154,0.0552075,0,0,0.00081352499999999995,0,0,0.086678400000000003,0.15872700000000001,0,0,0,0,0,-25.048200000000001,
0,0,0,0,0,0,0,-0.0024889399999999998,0.00061605299999999998,-0.00057971599999999998,0.0029548199999999999,0.0847001,0.17014699999999999,0,0,0,
0,0,0,2.4742499999999999e-05,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0},
{0.94484599999999996,0,0,-0.030861699999999999,0,-0.024401900000000001,0.00648607,0,0.030818100000000001,0.045939199999999999,0,0,0,174.71199999999999,0,0.021326000000000001,
0,-356.95800000000003,0,0.00018227799999999999,0,0.00030747199999999999,0,0,0.086678400000000003,0.15872700000000001,0,0,0,0,0,0,
0.0038305399999999999,0,0,-0.0019306499999999999,-0.0014509,0,0,0,0,-0.00123493,0.00136736,0.0847001,0.17014699999999999,0.0037146900000000001,0,0,
0,0,0.0051025000000000003,2.4742499999999999e-05,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0.0036875599999999999,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0},
{1.3557999999999999,0.144816,0,0.060776700000000003,0,0.029477699999999999,0.074690000000000006,0,-0.092382199999999998,0.085734199999999997,0,0,0,23.863600000000002,0,0.077165300000000006,
0,81.875100000000003,0.018773600000000001,0,0,0.014966699999999999,0,0,0.086678400000000003,0.15872700000000001,0,0,0,0,0,-367.87400000000002,
0.0054815799999999998,0,0,0,0,0,0,0,0,0,0,0.0847001,0.17014699999999999,0.012263100000000001,0,0,
0,0,0.0081718699999999995,3.71617e-05,0,0,0,0,0,0,0,0,0,0,0,0,
-0.0021082599999999998,-0.0031364000000000001,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,-0.073574200000000006,-0.050026599999999997,0,0,0,0,
0.0194965,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0},
{1.0476099999999999,0.20016500000000001,0.23769699999999999,0.036855199999999998,0,0.035720200000000001,-0.21407499999999999,0,-0.108018,-0.37398100000000001,0,0.031002200000000001,-0.0011630500000000001,-20.759599999999999,0,0.086450200000000005,
0,97.490799999999993,0.0516707,0,0,0,0,0,0.086678400000000003,0.15872700000000001,0,0,0,0,0,346.19299999999998,
0.013429699999999999,0,0,0,0,0,0,-0.0034850900000000001,-0.00015468900000000001,0,0,0.0847001,0.17014699999999999,0.0147753,0,0,
0,0,0.018932000000000001,3.6818099999999999e-05,0.013257,0,0,0.0035971900000000001,0.00744328,-0.00100023,-6505.2799999999997,0,0.0103485,-0.00100983,-0.0040691599999999996,-66.086399999999998,
-0.0171533,0.011060499999999999,0.012030000000000001,-0.0052003400000000003,0,0,0,0,0,0,0,-2627.6900000000001,0.0071375500000000003,0.0041799899999999997,0,12591,
0,0,0,-0.00223595,0.00460217,0.0057179400000000003,0,0,0,0,-0.031835299999999997,-0.0235526,-0.0136189,0,0,0,
0.020352200000000001,-66.783699999999996,-0.00109724,0,-0.0138821,0.0160468,0,0,0,0,0,0,0,0.0151574,-0.00054447000000000002,0,
0.072822399999999995,0.065941299999999994,0,-0.0051569199999999997,0,0,-3703.6700000000001,0,0,0.0136131,0.0053815299999999998,0,4.7628500000000003,-0.017567699999999999,0.0226301,0,
0.017663100000000001,0.0047716199999999999,0,5.3935399999999998,0,-0.0075170999999999997,0,0,-88.273600000000002,0,0,0,0,0,0,0,
0,0,0,0,0,0},
{1.26376,-0.21430399999999999,-0.14998400000000001,0.230404,0.029823700000000002,0.0268673,0.29622799999999999,0.022190000000000001,-0.020765499999999999,0.45250600000000002,0.120105,0.032441999999999999,0.042481600000000001,-9.1431299999999993,0,0.024717800000000002,
-0.028822899999999999,81.280500000000004,0.051038,-0.0058061099999999997,2.5123600000000001e-05,-0.012408300000000001,0,0,0.086678400000000003,0.15872700000000001,-0.034819000000000003,0,0,2.8988499999999999e-05,0,153.595,
-0.016860400000000001,0,0.010101499999999999,0,0,0,0,0.00028455199999999998,-0.00122181,0,0,0.0847001,0.17014699999999999,-0.010492700000000001,0,0,
0,-0.0059131299999999999,-0.0230501,3.1475800000000001e-05,0,0,0.0126956,0.0083548900000000002,0.000310513,0,3421.1900000000001,-0.0024501700000000002,-0.00042715400000000001,0.00054515200000000003,0.0018989600000000001,28.912099999999999,
-0.0064997299999999996,-0.0193855,-0.0148492,0,-0.051057600000000002,0.078730599999999998,0.095198099999999994,-14942.200000000001,0,0,0,265.50299999999999,0,0,0,0,
0,0,0,0.0063711000000000002,0.00032478900000000002,0,0,0,0,0,0.0614274,0.010037600000000001,-0.00084108299999999996,0,0,0,
-0.0127099,0,0,0,-0.0039407699999999997,-0.012860099999999999,-0.0079761599999999995,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,-0.00671465,-0.0016979899999999999,0.00193772,3.8113999999999999,-0.0077929000000000002,-0.018258900000000002,-0.012586,
-0.0104311,-0.0030246499999999998,0.00243063,3.6323699999999999,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0},
{70.955699999999993,-0.32673999999999997,0,-0.51682899999999998,-0.00171664,0.090930999999999998,-0.67149999999999999,-0.14777100000000001,-0.092747099999999999,-0.23086200000000001,-0.15640999999999999,0.013445500000000001,-0.119717,2.5215100000000001,0,-0.24158199999999999,
0.059293899999999997,4.3975600000000004,0.091527999999999998,0.0044129199999999999,0,0.0086680699999999999,0,0,0.086678400000000003,0.15872700000000001,0.097470100000000004,0,0,0,0,67.021699999999996,
-0.0013166,0,-0.0165317,0,0,0.085024699999999995,27.742799999999999,0.00498658,0.0061511500000000002,0.0095015599999999992,-0.021272300000000001,0.0847001,0.17014699999999999,-0.0238645,0,0,
0,0.0013738000000000001,-0.0084191800000000001,2.8014500000000001e-05,0.0071238300000000003,0,-0.016620900000000001,0.000103533,-0.0168898,0,3645.2600000000002,0,0.0065407699999999996,0.00036913000000000001,0.00099441900000000008,84.280299999999997,
-0.0116124,-0.0077441400000000001,-0.00168844,0.0014280899999999999,-0.0019295499999999999,0.117225,-0.024151200000000001,15052.1,0,0,0,1602.6099999999999,0,0,0,0,
0,0,0,-0.00035440299999999999,-0.018727000000000001,0,0,0,0,0,0.027643899999999999,0.0064320699999999998,-0.035430000000000003,0,0,0,
-0.028022100000000001,81.122799999999998,-0.00067525500000000004,0,-0.0105162,-0.00348292,-0.0069732099999999997,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,-0.00145546,-0.013197,-0.0035775099999999999,-1.0902099999999999,-0.0150181,-0.00712841,-0.0066458999999999997,
-0.0035260999999999999,-0.0187773,-0.0022243200000000001,-0.393895,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0},
{0.060405,1.5703400000000001,0.029938699999999999,0,0,0,0,0,0,-1.5101800000000001,0,0,0,-8.6165000000000003,0.012645399999999999,0,
0,0,0,0,0,0.0055087799999999996,0,0,0.086678400000000003,0.15872700000000001,0,0,0,0,0,0,
0.062388100000000002,0,0,0,0,0,0,0,0,0,0,0.0847001,0.17014699999999999,-0.094593399999999994,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0}};
static const double PTL[4][100] = {{1.00858,0.045601099999999999,-0.0222972,-0.054438800000000002,0.000523136,-0.0188849,0.052370699999999999,-0.0094364600000000007,0.0063170700000000002,-0.078046000000000004,-0.048842999999999998,0,0,-7.6025,0,-0.014463500000000001,
-0.0176843,-121.517,0.028564699999999998,0,0,0.00063179200000000005,0,0.0057719700000000004,0.086678400000000003,0.15872700000000001,0,0,0,0,0,-8902.7199999999993,
0.0033061100000000001,0.0030217199999999999,0,-0.0021367299999999999,-0.00032090999999999999,0,0,0.00276034,0.0028248700000000002,-0.00029759200000000001,-0.0042153399999999997,0.0847001,0.17014699999999999,0.0089645599999999999,0,-0.010859600000000001,
0,0,0.0055791699999999996,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0.0096540500000000008,0,0,2},
{0.93966400000000005,0.085651400000000003,-0.0067998900000000003,0.026592899999999999,-0.00474283,0.0121855,-0.021490499999999999,0.0064965099999999996,-0.020547699999999999,-0.042495199999999997,0,0,0,11.9148,0,0.0118777,
-0.072822999999999999,-81.596500000000006,0.0173887,0,0,0,-0.0144691,0.00028025899999999999,0.086678400000000003,0.15872700000000001,0,0,0,0,0,216.584,
0.0031871299999999998,0.00737479,0,-0.00255018,-0.0039280599999999997,0,0,-0.0028975699999999999,-0.0013354899999999999,0.0010266100000000001,0.00035377500000000002,0.0847001,0.17014699999999999,-0.0091749699999999993,0,0,
0,0,0.0035608200000000001,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
-0.010090200000000001,0,0,2},
{0.98598200000000003,-0.045543500000000001,0.012110599999999999,0.020412699999999999,-0.00240836,0.0111383,-0.045192599999999999,0.013507399999999999,-0.0065413900000000002,0.115275,0.128247,0,0,-5.3070500000000003,0,-0.0379332,
-0.062474099999999998,0.77106200000000003,0.029631500000000002,0,0,0,0.0068105099999999997,-0.0043476699999999997,0.086678400000000003,0.15872700000000001,0,0,0,0,0,10.7003,
-0.0027690700000000002,0.00043247400000000002,0,0.0013149699999999999,-0.00064751700000000001,0,-22.062100000000001,-0.00110804,-0.00080933800000000005,0.00041818399999999999,0.0042965,0.0847001,0.17014699999999999,0,0,0,
0,0,-0.0040433700000000001,0,0,0,0,0,0,0,0,0,0,0,0,0,
-0.00095255000000000003,0.00085625299999999996,0.00043311400000000001,0,0,0,0,0,0,0,0.0012122299999999999,0.00023869399999999999,0.00091524499999999997,0.00128385,0.00086766800000000004,-5.6142499999999997e-06,
1.0444500000000001,34.111199999999997,0,-0.84070400000000001,-239.63900000000001,0.70666799999999996,-20.587299999999999,-0.36369600000000002,23.924499999999998,0,-0.00106657,-0.00076729200000000004,0.00015453400000000001,0,0,0,
0,0,0,2},
{1.0032000000000001,0.038350099999999998,-0.0023898299999999999,0.0028395,0.0042095600000000002,0.00058661900000000003,0.021905399999999998,-0.0100946,-0.0035025899999999999,0.041739199999999997,-0.0084440399999999999,0,0,4.9694900000000004,0,-0.0070647799999999997,
-0.0146494,31.325800000000001,-0.0018649300000000001,0,-0.016749900000000002,0,0,0.00051268600000000004,0.086678400000000003,0.15872700000000001,-0.0046416699999999997,0,0,0,0.0043735299999999996,-199.06899999999999,
0,-0.0053488399999999997,0,0.00162458,0.0029301599999999998,0.0026792600000000001,590.44899999999996,0,0,-0.0011726600000000001,-0.00035889,0.0847001,0.17014699999999999,0,0,0.013867300000000001,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0.00160571,0.00062807800000000001,5.0546900000000002e-05,0,0,0,0,0,0,0,-0.00157829,-0.00040085499999999998,5.0407700000000002e-05,-0.0013900099999999999,-0.0023340600000000002,-0.00048119699999999999,
1.4675800000000001,6.2033199999999997,0,0.36647600000000002,-61.975999999999999,0.30919799999999997,-19.899899999999999,0,-329.93299999999999,0,-0.0011008000000000001,-9.3931000000000006e-05,0.00013963800000000001,0,0,0,
0,0,0,2}};
static const double PDL[2][25] = {{1.0992999999999999,3.9063099999999999,3.07165,0.98616099999999995,16.3536,4.6383000000000001,1,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,1.2884,0.031030200000000001,0.118339},
{1,0.69999999999999996,1.1501999999999999,3.4468899999999998,1.2884,1,1.08738,1.2294700000000001,1.10016,0.73412900000000003,1.1524099999999999,2.22784,0.79504600000000003,4.0161199999999999,4.4774900000000004,123.435,
-0.076053499999999996,1.6898600000000001e-06,0.74429400000000001,1.0360400000000001,172.78299999999999,1.1501999999999999,3.4468899999999998,-0.74622999999999995,0.94915400000000005}};
static const double PT[150] = {0.98657300000000003,0.016222799999999999,0.015526999999999999,-0.104323,-0.00375801,-0.00118538,-0.124043,0.0045681999999999997,0.0087601799999999994,-0.13623499999999999,-0.035242700000000002,0.0088418100000000003,-0.0059212700000000002,-8.6165000000000003,0,0.0128492,
0,130.096,0.010456699999999999,0.00165686,-5.53887e-06,0.0029781,0,0.0051312199999999997,0.086678400000000003,0.15872700000000001,0,0,0,-7.2702600000000003e-06,0,6.7449399999999997,
0.0049393299999999996,0.0022165599999999998,0.0025080200000000001,0,0,-0.020884099999999999,-1.7987299999999999,0.0014510300000000001,0.00028176900000000002,-0.00144703,-5.1639399999999999e-05,0.0847001,0.17014699999999999,0.0057256199999999998,5.0749299999999999e-05,0.00436148,
0.00011786300000000001,0.0047436400000000004,0.0066127800000000004,4.3429200000000001e-05,0.0014437300000000001,2.4147000000000001e-05,0.0028442599999999999,0.00085656000000000003,0.0020402799999999998,0,-3159.9400000000001,-0.00246423,0.00113843,0.000420512,0,-97.721400000000003,
0.0067779399999999997,0.0052749900000000002,0.0011493600000000001,0,-0.0066131100000000002,-0.018425500000000001,-0.019625900000000002,29861.799999999999,0,0,0,644.57399999999996,0.00088466800000000002,0.00050506599999999998,0,4028.8099999999999,
-0.00189503,0,0,0.00082140700000000002,0.0020677999999999998,0,0,0,0,0,-0.012041,-0.00363963,9.9207000000000001e-05,-0.000115284,-6.33059e-05,-0.605545,
0.0083421799999999994,-91.303600000000003,0.00037104199999999998,0,0.00041899999999999999,0.0027092800000000001,0.0033150699999999998,-0.0044450799999999997,-0.0049633400000000001,-0.0016044900000000001,0.0039511900000000003,0.0024892400000000002,0.00050981500000000005,0.0040530200000000001,0.0022407600000000001,0,
0.0068425600000000001,0.00046635399999999999,0,-0.00036832800000000001,0,0,-146.87,0,0,0.00109501,0.00046515599999999999,0.00056258299999999996,3.2159599999999999,0.00064316799999999995,0.0031486000000000001,0.0034073799999999998,
0.00178481,0.00096253199999999999,0.00055817099999999999,3.4373100000000001,-0.23319500000000001,0.00051028900000000003,0,0,-92534.699999999997,0,-0.0019963899999999998,0,0,0,0,0,
0,0,0,0,0,0};
static const double PS[150] = {0.95682699999999998,0.062063699999999999,0.031843299999999998,0,0,0.039489999999999997,0,0,-0.0092488199999999996,-0.0079402299999999995,0,0,0,174.71199999999999,0,0,
0,0,0,0,0,0.0027467699999999999,0,0.015495099999999999,0.086678400000000003,0.15872700000000001,0,0,0,0,0,0,
0,-0.00069900699999999997,0,0,0,0,0,0,0,0.0124362,-0.0052875600000000002,0.0847001,0.17014699999999999,0,0,0,
0,0,0,2.4742499999999999e-05,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0};
