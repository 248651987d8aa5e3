#ifndef golden_coeffs_rock4
#define golden_coeffs_rock4
 static const double G_RECF[4382]={
0.1762962957651941e+00,0.1067131485543800e+00,0.1296319693918818e+00,0.6097984609869632e-02,
0.7296375286357569e-01,0.8749824867149326e-01,0.6126949805354446e-02,0.1026802330400501e+00,
0.3026744779900850e-01,0.5345766591735225e-01,0.6421114488497465e-01,0.6297251335072349e-02,
0.7361067001944596e-01,0.2954244012876854e-01,0.8450213007949955e-01,0.6370198138618569e-01,
0.4102541073974864e-01,0.4936734181284644e-01,0.6437548414781547e-02,0.5655964819916140e-01,
0.3008674068005620e-01,0.6301337991392048e-01,0.6092514503458917e-01,0.7122116739390529e-01,
0.1014508394981259e+00,0.3256098772501858e-01,0.3923994550846150e-01,0.6548791582739922e-02,
0.4499511886194148e-01,0.3061034821432499e-01,0.5000269311882022e-01,0.6157339578289546e-01,
0.5465516336291797e-01,0.9570538881974761e-01,0.6104333020232396e-01,0.1406290220864037e+00,
0.2651417777294218e-01,0.3199100352247176e-01,0.6637416338030012e-02,0.3671473048471728e-01,
0.3104646653985547e-01,0.4080808506561111e-01,0.6240780397840483e-01,0.4441697436286914e-01,
0.9608256539833336e-01,0.4790790953491602e-01,0.1314940925346221e+00,0.5299225195731577e-01,
0.1795490141555294e+00,0.2203688946407306e-01,0.2661454798174795e-01,0.6708509073973803e-02,
0.3056730958573840e-01,0.3140468274131318e-01,0.3399153986085689e-01,0.6314347647488826e-01,
0.3698314358022203e-01,0.9706950916624359e-01,0.3966494820191785e-01,0.1312524251550016e+00,
0.4237605842481057e-01,0.1670258610104497e+00,0.4651311259978263e-01,0.2174924541420837e+00,
0.1862250741526137e-01,0.2250861576538788e-01,0.6766202022280821e-02,0.2586805882924489e-01,
0.3170042346032810e-01,0.2877953008086195e-01,0.6376714023863055e-01,0.3131867762450776e-01,
0.9801783524123062e-01,0.3355864056201850e-01,0.1322218594416999e+00,0.3560688231225300e-01,
0.1658724905539629e+00,0.3777371673577270e-01,0.2016177039517425e+00,0.4119698781191684e-01,
0.2539572842035754e+00,0.1595000101933615e-01,0.1929098080329146e-01,0.6813771091892661e-02,
0.2218226060548395e-01,0.3194763050768121e-01,0.2468951849041972e-01,0.6429708643843554e-01,
0.2687566748685502e-01,0.9885398134767075e-01,0.2879687047315825e-01,0.1332911334324939e+00,
0.3051024265050759e-01,0.1666672556601528e+00,0.3211180339134084e-01,0.1993212628717513e+00,
0.3387840798530223e-01,0.2348117800966209e+00,0.3672204698847085e-01,0.2881723275817451e+00,
0.1381614369504127e-01,0.1671925338932986e-01,0.6853396714797705e-02,0.1923405366588467e-01,
0.3215586472031486e-01,0.2141625996563439e-01,0.6474907548155116e-01,0.2331937590115891e-01,
0.9958008772514045e-01,0.2499024766114432e-01,0.1342748583683893e+00,0.2647050763871464e-01,
0.1677665086248348e+00,0.2780637354179997e-01,0.1998070962536277e+00,0.2908398701850636e-01,
0.2312827828857880e+00,0.3054428937166170e-01,0.2663434084812225e+00,0.3290759457513454e-01,
0.3198421010321994e+00,0.1209208337462717e-01,0.1463956211973881e-01,0.6886319232429428e-02,
0.1684821591214353e-01,0.3233043835607318e-01,0.1876598514920064e-01,0.6513176017688395e-01,
0.2043905166732186e-01,0.1002021458157551e+00,0.2190770330626050e-01,0.1351369448238108e+00,
0.2320633429617816e-01,0.1688220571485906e+00,0.2436655982458731e-01,0.2008416611727759e+00,
0.2542750723914090e-01,0.2313613787046680e+00,0.2646792773501215e-01,0.2616749611549993e+00,
0.2769967463189309e-01,0.2964076499426887e+00,0.2970440766084731e-01,0.3502117812643117e+00,
0.1067034715302655e-01,0.1292329710584654e-01,0.6914320860943588e-02,0.1487812037525849e-01,
0.3248006428304434e-01,0.1657652594868420e-01,0.6546254336130322e-01,0.1805880263820550e-01,
0.1007449363462607e+00,0.1936010074490956e-01,0.1358990057232774e+00,0.2051007922030995e-01,
0.1697855056821405e+00,0.2153416689781703e-01,0.2019295372474008e+00,0.2245709430196045e-01,
0.2322718220467692e+00,0.2331275056513504e-01,0.2612402870437151e+00,0.2417201314765524e-01,
0.2904095866946978e+00,0.2521646587374857e-01,0.3246308095620147e+00,0.2690764435467064e-01,
0.3778240223542354e+00,0.9487431939295812e-02,0.1149440138138981e-01,0.6938125808908258e-02,
0.1323700105262745e-01,0.3260808020167218e-01,0.1475188210924817e-01,0.6574755356940067e-01,
0.1607452560476730e-01,0.1012162270929412e+00,0.1723591531771676e-01,0.1365667423922086e+00,
0.1826211676183441e-01,0.1706429091716792e+00,0.1917496536345655e-01,0.2029443389633356e+00,
0.1999362278384748e-01,0.2333350798953319e+00,0.2073811037471499e-01,0.2619641661449880e+00,
0.2143841440760416e-01,0.2894413776906615e+00,0.2215820736295387e-01,0.3175489053704050e+00,
0.2305270619849904e-01,0.3512439576972030e+00,0.2449014264738941e-01,0.4036179314586852e+00,
0.8494564197695063e-02,0.1029439196351078e-01,0.6958406921839354e-02,0.1185809158880236e-01,
0.3271773184277712e-01,0.1321815865055247e-01,0.6599313162331372e-01,0.1440610601409755e-01,
0.1016249390468336e+00,0.1544947770682643e-01,0.1371499803680846e+00,0.1637143556780157e-01,
0.1713990070155131e+00,0.1719123774995229e-01,0.2038574724036485e+00,0.1792514377153798e-01,
0.2343593316805466e+00,0.1858798779956469e-01,0.2629560717194659e+00,0.1919659343371288e-01,
0.2899296316580346e+00,0.1977810373828767e-01,0.3160315643000932e+00,0.2039024270914711e-01,
0.3432192271881122e+00,0.2116722465269759e-01,0.3765294846983478e+00,0.2240833445471075e-01,
0.4283514372117345e+00,0.7648100953017721e-02,0.9270847111494888e-02,0.6976054938079860e-02,
0.1068147039692487e-01,0.3281359708712486e-01,0.1190898600388846e-01,0.6620896361366048e-01,
0.1298157114442065e-01,0.1019862089328133e+00,0.1392387354640439e-01,0.1376687444923527e+00,
0.1475662479151471e-01,0.1720764656800079e+00,0.1549702171989481e-01,0.2046849615229637e+00,
0.1615937354505817e-01,0.2353135758405889e+00,0.1675598207974404e-01,0.2639750061864973e+00,
0.1729863164965770e-01,0.2908276346191939e+00,0.1780176282268598e-01,0.3162404475076796e+00,
0.1828983612841132e-01,0.3410641528662292e+00,0.1881415834433531e-01,0.3673520724841440e+00,
0.1948852933531380e-01,0.4000529139809629e+00,0.2055287002810484e-01,0.4505930922691549e+00,
0.6923848173158734e-02,0.8394702950361006e-02,0.6991325631797234e-02,0.9673911522111264e-02,
0.3289687833321025e-01,0.1078755757084805e-01,0.6639729788616958e-01,0.1176100014874140e-01,
0.1023029830546846e+00,0.1261643557454879e-01,0.1381259991601194e+00,0.1337254080889024e-01,
0.1726770746288135e+00,0.1404479965650065e-01,0.2054241214472704e+00,0.1464602837670213e-01,
0.2361779701904081e+00,0.1518698551280871e-01,0.2649344026216049e+00,0.1567717541900471e-01,
0.2918033340368942e+00,0.1612624123496420e-01,0.3170079069341164e+00,0.1654688879900881e-01,
0.3409811920927984e+00,0.1696136666824286e-01,0.3646547307991162e+00,0.1741546145080310e-01,
0.3901537483439419e+00,0.1800636597179543e-01,0.4223218228522266e+00,0.1892881341268367e-01,
0.4717326233521751e+00,0.6298588439596636e-02,0.7638030626687965e-02,0.7004655851265844e-02,
0.8803453943265293e-02,0.3296982845467406e-01,0.9818444950365933e-02,0.6656291057106480e-01,
0.1070595626475817e-01,0.1025827278785117e+00,0.1148608766389635e-01,0.1385316612194638e+00,
0.1217575810897931e-01,0.1732125747484649e+00,0.1278899412440368e-01,0.2060869881923743e+00,
0.1333738432024735e-01,0.2369597744170469e+00,0.1383056388512692e-01,0.2658180187652428e+00,
0.1427674437223498e-01,0.2927507447256686e+00,0.1468343958863289e-01,0.3179214676099940e+00,
0.1505875998976432e-01,0.3415951393087426e+00,0.1541407984395701e-01,0.3642544652079210e+00,
0.1576969712450036e-01,0.3868951368176343e+00,0.1616644053575092e-01,0.4116861214445555e+00,
0.1668748198434585e-01,0.4433331570075596e+00,0.1749188724059570e-01,0.4916033800451471e+00,
0.5754360678751824e-02,0.6979206263458857e-02,0.7016389205940601e-02,0.8045335113843408e-02,
0.3303423464885706e-01,0.8974185166510452e-02,0.6670962735009836e-01,0.9786634336394070e-02,
0.1028314890330009e+00,0.1050097258572427e-01,0.1388938643805943e+00,0.1113260003649783e-01,
0.1736928024956524e+00,0.1169428623074936e-01,0.2066843246414360e+00,0.1219657523409050e-01,
0.2376686083847098e+00,0.1264820000840307e-01,0.2666274169278879e+00,0.1305648757877945e-01,
0.2936397261253015e+00,0.1342781257742339e-01,0.3188429723296673e+00,0.1376825401666917e-01,
0.3424305607919373e+00,0.1408478812041018e-01,0.3646959159353649e+00,0.1438768989133101e-01,
0.3861600014637602e+00,0.1469542216481714e-01,0.4078642344326945e+00,0.1504419066763009e-01,
0.4319869811400004e+00,0.1550494890247615e-01,0.4630491704469774e+00,0.1620775053166640e-01,
0.5100139240423402e+00,0.5278040811520425e-02,0.6402421198476983e-02,0.7026749310824704e-02,
0.7381444032562888e-02,0.3309125386700502e-01,0.8234685519924101e-02,0.6683990648107069e-01,
0.8981222939541469e-02,0.1030531116670419e+00,0.9637773923336658e-02,0.1392177117208699e+00,
0.1021841796444464e-01,0.1741238287384007e+00,0.1073483180895483e-01,0.2072226942408981e+00,
0.1119665624742548e-01,0.2383105498941010e+00,0.1161186412382382e-01,0.2673653866792523e+00,
0.1198709958412187e-01,0.2944607083863120e+00,0.1232800940556657e-01,0.3197217653056301e+00,
0.1263963481803662e-01,0.3433101656487968e+00,0.1292700918588335e-01,0.3654364911202174e+00,
0.1319625157476125e-01,0.3864151426812009e+00,0.1345671217793918e-01,0.4067976665874104e+00,
0.1372517143690529e-01,0.4276578990766819e+00,0.1403368592830970e-01,0.4511616717492440e+00,
0.1444284729184994e-01,0.4816264620225250e+00,0.1505946839641039e-01,0.5272614695163532e+00,
0.4487666665675140e-02,0.5444990141910759e-02,0.7044130283096086e-02,0.6279049188091140e-02,
0.3318723192008640e-01,0.7006368632847780e-02,0.6706002621750722e-01,0.7643068862200888e-02,
0.1034291291409337e+00,0.8203282681027360e-02,0.1397696656221023e+00,0.8698916419500413e-02,
0.1748620369064401e+00,0.9139847522019589e-02,0.2081495587015637e+00,0.9534232617493163e-02,
0.2394220617811718e+00,0.9888812556097354e-02,0.2686520584410767e+00,0.1020918148777924e-01,
0.2959071488424056e+00,0.1050001965367601e-01,0.3213027967445414e+00,0.1076530680194359e-01,
0.3449782554868110e+00,0.1100855051222504e-01,0.3670882760306343e+00,0.1123309242673613e-01,
0.3878099745344409e+00,0.1144260835071195e-01,0.4073711108103572e+00,0.1164201330179298e-01,
0.4261157327362403e+00,0.1183914191832676e-01,0.4446387149497601e+00,0.1204780719832178e-01,
0.4640454326093743e+00,0.1229306401377462e-01,0.4864269389633110e+00,0.1261927726417314e-01,
0.5156669165861498e+00,0.1309943489239065e-01,0.5586255185473764e+00,0.3862975224403902e-02,
0.4687945053900655e-02,0.7058035858061096e-02,0.5407041834964283e-02,0.3326430524210259e-01,
0.6034411186094848e-02,0.6723753885455681e-01,0.6583863333832890e-02,0.1037337930420006e+00,
0.7067509494777436e-02,0.1402191813726617e+00,0.7495554804930935e-02,0.1754665679972444e+00,
0.7876466939414612e-02,0.2089130635289459e+00,0.8217239718909702e-02,0.2403434536707747e+00,
0.8523653399761676e-02,0.2697261364777181e+00,0.8800501778860810e-02,0.2971251237465357e+00,
0.9051782217229109e-02,0.3226519291781493e+00,0.9280855010852164e-02,0.3464394048134897e+00,
0.9490584189896421e-02,0.3686285665457733e+00,0.9683478271871005e-02,0.3893644369335397e+00,
0.9861860805271804e-02,0.4088004145802082e+00,0.1002812139311295e-01,0.4271141176574624e+00,
0.1018513471380169e-01,0.4445422442202590e+00,0.1033699621003472e-01,0.4614490459910935e+00,
0.1049031549106710e-01,0.4784539901229190e+00,0.1065642152893932e-01,0.4966599824214358e+00,
0.1085488420737215e-01,0.5180410345089337e+00,0.1111843432827249e-01,0.5460483341177160e+00,
0.1149782035140485e-01,0.5864065338958527e+00,0.3360562419718235e-02,0.4078879630499024e-02,
0.7069329073407106e-02,0.4705262542208223e-02,0.3332708647415080e-01,0.5251963413756800e-02,
0.6738262760022461e-01,0.5730951315737387e-02,0.1039837553534775e+00,0.6152725177551053e-02,
0.1405895253957461e+00,0.6526132611753048e-02,0.1759668677811218e+00,0.6858515620324401e-02,
0.2095479655628776e+00,0.7155939019582245e-02,0.2411135586103733e+00,0.7423415917481789e-02,
0.2706287495885053e+00,0.7665103884932816e-02,0.2981548371545775e+00,0.7884467592308588e-02,
0.3238009173107087e+00,0.8084411667986876e-02,0.3476971265301733e+00,0.8267390411961633e-02,
0.3699801584879876e+00,0.8435502610509800e-02,0.3907862310698117e+00,0.8590582044778894e-02,
0.4102493117101150e+00,0.8734298913651078e-02,0.4285042785031379e+00,0.8868296093454296e-02,
0.4456965009415761e+00,0.8994399398069296e-02,0.4620016328614911e+00,0.9114966064926034e-02,
0.4776628155317611e+00,0.9233473962579846e-02,0.4930576673885005e+00,0.9355505324217098e-02,
0.5088149715467647e+00,0.9490326792694050e-02,0.5260104590494338e+00,0.9653243364999375e-02,
0.5464780715474395e+00,0.9868600991484903e-02,0.5732601989067468e+00,0.1017225716053114e-01,
0.6111363239215825e+00,0.2950437825487400e-02,0.3581555112941687e-02,0.7078620126622295e-02,
0.4132082643231012e-02,0.3337886298886408e-01,0.4612740002118506e-02,0.6750261702445300e-01,
0.5034004128539568e-02,0.1041911190752577e+00,0.5405066674282486e-02,0.1408978061674918e+00,
0.5733674167146439e-02,0.1763848697593524e+00,0.6026255228800488e-02,0.2100805343046851e+00,
0.6288120524548417e-02,0.2417622608971423e+00,0.6523660186046708e-02,0.2713924596018528e+00,
0.6736515451660314e-02,0.2990302271326234e+00,0.6929720582831246e-02,0.3247828257866806e+00,
0.7105817882799941e-02,0.3487787217481978e+00,0.7266950671260499e-02,0.3711526971215219e+00,
0.7414939513031372e-02,0.3920379717842592e+00,0.7551347241996011e-02,0.4115626674210771e+00,
0.7677539108440712e-02,0.4298493831220752e+00,0.7794746313920410e-02,0.4470176901244603e+00,
0.7904145004284749e-02,0.4631903418970273e+00,0.8006969465604538e-02,0.4785052149162398e+00,
0.8104689159161025e-02,0.4931367316839517e+00,0.8199295885823027e-02,0.5073330960096394e+00,
0.8293770604485683e-02,0.5214794128662904e+00,0.8392826136597125e-02,0.5362017345344410e+00,
0.8504035938797333e-02,0.5525322098044688e+00,0.8639408222270373e-02,0.5721561451757253e+00,
0.8817216208331320e-02,0.5977434938944347e+00,0.9063189668758038e-02,0.6332939739614603e+00,
0.2611205692460249e-02,0.3170101091465017e-02,0.7086356419628467e-02,0.3657766349841741e-02,
0.3342206181054271e-01,0.4083661809252030e-02,0.6760295824860309e-01,0.4457037354538724e-02,
0.1043649740346678e+00,0.4786009222605838e-02,0.1411570048315963e+00,0.5077417957619811e-02,
0.1767374059456163e+00,0.5336940476209487e-02,0.2105311844047106e+00,0.5569266597573038e-02,
0.2423131187370251e+00,0.5778273412183262e-02,0.2720433970782992e+00,0.5967176862421978e-02,
0.2997792878733318e+00,0.6138656970674597e-02,0.3256265499647623e+00,0.6294959076405515e-02,
0.3497123813254361e+00,0.6437975105563999e-02,0.3721703830438909e+00,0.6569309029799851e-02,
0.3931323996098995e+00,0.6690330403814164e-02,0.4127244218331418e+00,0.6802219694622686e-02,
0.4310650456887266e+00,0.6906009314473870e-02,0.4482657882348953e+00,0.7002625080460826e-02,
0.4644331547605672e+00,0.7092934548851317e-02,0.4796729107857300e+00,0.7177811732959676e-02,
0.4940976831610963e+00,0.7258232689273568e-02,0.5078399409574430e+00,0.7335424050171227e-02,
0.5210737517163408e+00,0.7411097366633641e-02,0.5340506436534539e+00,0.7487815663348852e-02,
0.5471575324915496e+00,0.7569550927915151e-02,0.5610077596302204e+00,0.7662488506257662e-02,
0.5765785117760304e+00,0.7776079157718089e-02,0.5954049494922431e+00,0.7924148666854938e-02,
0.6198219542319461e+00,0.8125409481841733e-02,0.6531839888628567e+00,0.2329161903934607e-02,
0.2827942346666575e-02,0.7092767801324573e-02,0.3263256653829519e-02,0.3345792087848227e-01,
0.3643524065941897e-02,0.6768640663901933e-01,0.3976979208186409e-02,0.1045098632090649e+00,
0.4270848280167040e-02,0.1413735187729310e+00,0.4531221910361700e-02,0.1770326285691667e+00,
0.4763154723278143e-02,0.2109095929304028e+00,0.4970822485283018e-02,0.2427770065864133e+00,
0.5157677387973698e-02,0.2725932360325259e+00,0.5326583047275474e-02,0.3004140385861841e+00,
0.5479926007282439e-02,0.3263439258620141e+00,0.5619705807004115e-02,0.3505090634425326e+00,
0.5747607114086801e-02,0.3730421698484556e+00,0.5865057476337201e-02,0.3940742505245702e+00,
0.5973273864880296e-02,0.4137303052977993e+00,0.6073300781079440e-02,0.4321274134643955e+00,
0.6166042448892977e-02,0.4493743356584487e+00,0.6252291618234036e-02,0.4655722399143190e+00,
0.6332757862946729e-02,0.4808165109947856e+00,0.6408099103723341e-02,0.4951999355274510e+00,
0.6478961616347051e-02,0.5088179499753192e+00,0.6546036269964925e-02,0.5217771724376283e+00,
0.6610142518258857e-02,0.5342092003559118e+00,0.6672357066182766e-02,0.5462927399000752e+00,
0.6734211186973384e-02,0.5582886150793852e+00,0.6797988292026415e-02,0.5705940457094262e+00,
0.6867157346618580e-02,0.5838243594874886e+00,0.6946966207628190e-02,0.5989305413025341e+00,
0.7045163972244657e-02,0.6173557330297905e+00,0.7172668498534273e-02,0.6412138054673769e+00,
0.7343669551813224e-02,0.6734212283950197e+00,0.2088962222558656e-02,0.2536501141538391e-02,
0.7098312096014856e-02,0.2927174164471204e-02,0.3348897507192802e-01,0.3268517695916878e-02,
0.6775879346915351e-01,0.3567904939390041e-02,0.1046357814625728e+00,0.3831806772332035e-02,
0.1415620734408565e+00,0.4065677361393518e-02,0.1772903102475344e+00,0.4274043151934446e-02,
0.2112406912998520e+00,0.4460643560808929e-02,0.2431839618927255e+00,0.4628570053481958e-02,
0.2730769378663360e+00,0.4780387068478273e-02,0.3009740811016449e+00,0.4918231891978967e-02,
0.3269788261694700e+00,0.5043895306797768e-02,0.3512164460435231e+00,0.5158886125836192e-02,
0.3738189139504120e+00,0.5264482738771292e-02,0.3949165867949340e+00,0.5361774417899160e-02,
0.4146338301275897e+00,0.5451694687903237e-02,0.4330869551935628e+00,0.5535048699155984e-02,
0.4503835468466499e+00,0.5612536310885108e-02,0.4666226835980815e+00,0.5684772523136652e-02,
0.4818958265481784e+00,0.5752307033652531e-02,0.4962883637349025e+00,0.5815645095778566e-02,
0.5098819947919943e+00,0.5875272604331699e-02,0.5227583713586083e+00,0.5931689562795883e-02,
0.5350047139508995e+00,0.5985457948104635e-02,0.5467225528673463e+00,0.6037272660724469e-02,
0.5580413411348073e+00,0.6088067820748090e-02,0.5691395094905580e+00,0.6139174903693435e-02,
0.5802765872262357e+00,0.6192552890264469e-02,0.5918411775133858e+00,0.6251110114702117e-02,
0.6044203697962170e+00,0.6319123951993900e-02,0.6188952404877303e+00,0.6402719127039078e-02,
0.6365612063366765e+00,0.6510255774185010e-02,0.6592545134576846e+00,0.6652267840556133e-02,
0.6894261807467007e+00,0.1884070525273232e-02,0.2287865166522269e-02,0.7103061833161608e-02,
0.2640414555924009e-02,0.3351561092037226e-01,0.2948504867845529e-02,0.6782096720073962e-01,
0.3218776897022670e-02,0.1047441025101927e+00,0.3457059211747976e-02,0.1417245576749319e+00,
0.3668264712145178e-02,0.1775127832127863e+00,0.3856470649104565e-02,0.2115271336150133e+00,
0.4025045325158119e-02,0.2435368006995073e+00,0.4176773382240289e-02,0.2734972927884814e+00,
0.4313964750721690e-02,0.3014619731636417e+00,0.4438544635664399e-02,0.3275333564649527e+00,
0.4552126174118954e-02,0.3518359485899692e+00,0.4656068554335920e-02,0.3745010840861863e+00,
0.4751523397588311e-02,0.3956585819539499e+00,0.4839471843717534e-02,0.4154323324012205e+00,
0.4920754357241174e-02,0.4339381722015443e+00,0.4996094895419632e-02,0.4512831048238278e+00,
0.5066120791624743e-02,0.4675653273310193e+00,0.5131379519337958e-02,0.4828747738428288e+00,
0.5192353422296487e-02,0.4972940502928434e+00,0.5249473538511721e-02,0.5108997625078284e+00,
0.5303133835275671e-02,0.5237643599692746e+00,0.5353707549485549e-02,0.5359587556465524e+00,
0.5401567951803124e-02,0.5475561617516223e+00,0.5447116802332092e-02,0.5586378279840697e+00,
0.5490825128586838e-02,0.5693017116602866e+00,0.5533292803086976e-02,0.5796755768842047e+00,
0.5575335692614607e-02,0.5899366290511978e+00,0.5618111542531525e-02,0.6003405110877628e+00,
0.5663297103480300e-02,0.6112631579002907e+00,0.5713326390293707e-02,0.6232591473997167e+00,
0.5771686951858539e-02,0.6371386281547686e+00,0.5843235308872718e-02,0.6540591245646711e+00,
0.5934415308321717e-02,0.6756138475691030e+00,0.6053127455671619e-02,0.7038679036965546e+00,
0.1708003175642380e-02,0.2074181532622547e-02,0.7107154835723396e-02,0.2393937473496849e-02,
0.3353858755734360e-01,0.2673414535955727e-02,0.6787466315584890e-01,0.2918625868457997e-02,
0.1048377783441727e+00,0.3134849526067874e-02,0.1418652820405583e+00,0.3326534476511183e-02,
0.1777057753498972e+00,0.3497372950002969e-02,0.2117760550049606e+00,0.3650415148383601e-02,
0.2438439995727389e+00,0.3788182708532486e-02,0.2738640090744446e+00,0.3912767381261045e-02,
0.3018885114907114e+00,0.4025912539016479e-02,0.3280192335266340e+00,0.4129078986309924e-02,
0.3523800195135267e+00,0.4223497595500826e-02,0.3751016505461964e+00,0.4310211297602812e-02,
0.3963134824357808e+00,0.4390108627214284e-02,0.4161390116668366e+00,0.4463950627129625e-02,
0.4346937216368967e+00,0.4532392561972495e-02,0.4520842562952224e+00,0.4596001602217271e-02,
0.4684083677796514e+00,0.4655271425546727e-02,0.4837553218910148e+00,0.4710634539896850e-02,
0.4982065930947042e+00,0.4762473060977909e-02,0.5118367810144925e+00,0.4811128680431732e-02,
0.5247147588413267e+00,0.4856912649796014e-02,0.5369051384586530e+00,0.4900116799220620e-02,
0.5484702216816451e+00,0.4941026937249812e-02,0.5594727154468603e+00,0.4979940477837468e-02,
0.5699796357324364e+00,0.5017190859382927e-02,0.5800680268418966e+00,0.5053182300865962e-02,
0.5898333966076152e+00,0.5088439691236800e-02,0.5994021272105722e+00,0.5123679830879367e-02,
0.6089495614023648e+00,0.5159911463507254e-02,0.6187259309040364e+00,0.5198571556852845e-02,
0.6290926122189227e+00,0.5241701843449486e-02,0.6405709220757223e+00,0.5292158145073340e-02,
0.6539038212088008e+00,0.5353817484714892e-02,0.6701255576222123e+00,0.5431693560278526e-02,
0.6906222214439113e+00,0.5531783368314496e-02,0.7171434625046844e+00,0.1486821222610860e-02,
0.1805710570607849e-02,0.7112315426865264e-02,0.2084226678642758e-02,0.3356758851849525e-01,
0.2327708403877407e-02,0.6794252207314784e-01,0.2541382628281658e-02,0.1049563283476954e+00,
0.2729837665345000e-02,0.1420436509870845e+00,0.2896941194350830e-02,0.1779508117794810e+00,
0.3045903028705765e-02,0.2120926886975343e+00,0.3179374802697815e-02,0.2442355417695174e+00,
0.3299548613427395e-02,0.2743324022628396e+00,0.3408242823717034e-02,0.3024345386679296e+00,
0.3506972940214846e-02,0.3286426953033458e+00,0.3597008842757047e-02,0.3530798855126308e+00,
0.3679420554768286e-02,0.3758761896368122e+00,0.3755114750481509e-02,0.3971603743636597e+00,
0.3824863905497256e-02,0.4170554403005484e+00,0.3889329651040080e-02,0.4356764468047173e+00,
0.3949081575434511e-02,0.4531296561693286e+00,0.4004612453985609e-02,0.4695124355979618e+00,
0.4056350682593341e-02,0.4849135873526999e+00,0.4104670535603563e-02,0.4994139167345992e+00,
0.4149900758174290e-02,0.5130869342770428e+00,0.4192331932996859e-02,0.5259996460201358e+00,
0.4232223028377952e-02,0.5382134282701106e+00,0.4269807540393116e-02,0.5497850203277219e+00,
0.4305299690448572e-02,0.5607677074343013e+00,0.4338901239307418e-02,0.5712128128876574e+00,
0.4370809641681970e-02,0.5811716792241682e+00,0.4401228508048884e-02,0.5906984004679025e+00,
0.4430381681233268e-02,0.5998536784140458e+00,0.4458532691684085e-02,0.6087103236556506e+00,
0.4486011931533010e-02,0.6173611125584528e+00,0.4513254549169507e-02,0.6259299431307765e+00,
0.4540852685066905e-02,0.6345874840856066e+00,0.4569625913830092e-02,0.6435727138959286e+00,
0.4600712887286172e-02,0.6532217324580875e+00,0.4635683708228730e-02,0.6640046346388578e+00,
0.4676663849565939e-02,0.6765693546213282e+00,0.4726442410018883e-02,0.6917869917669843e+00,
0.4788505706770704e-02,0.7107844374668939e+00,0.4866891449054713e-02,0.7349355366345482e+00,
0.1306017463771605e-02,0.1586222301823758e-02,0.7116548254584538e-02,0.1830990793066982e-02,
0.3359140173567671e-01,0.2045006139498853e-02,0.6799831246271335e-01,0.2232854278235691e-02,
0.1050539332243899e+00,0.2398561178839865e-02,0.1421907384347976e+00,0.2545520579058178e-02,
0.1781532257250431e+00,0.2676548965485182e-02,0.2123547392925449e+00,0.2793973015829898e-02,
0.2445602455405584e+00,0.2899716152387136e-02,0.2747216803842120e+00,0.2995373840546507e-02,
0.3028893817005614e+00,0.3082275794427197e-02,0.3291633014860622e+00,0.3161536205810221e-02,
0.3536657782024154e+00,0.3234093916059993e-02,0.3765263180987164e+00,0.3300744456546394e-02,
0.3978732008486888e+00,0.3362165629048766e-02,0.4178290151302299e+00,0.3418937992980868e-02,
0.4365084718269216e+00,0.3471561346521851e-02,0.4540175351893392e+00,0.3520468055585971e-02,
0.4704533078136206e+00,0.3566033899133432e-02,0.4859043358175601e+00,0.3608586955892009e-02,
0.5004511375120722e+00,0.3648414949109787e-02,0.5141668418466542e+00,0.3685771386301219e-02,
0.5271178746069831e+00,0.3720880775408019e-02,0.5393646641028532e+00,0.3753943164375919e-02,
0.5509623620882760e+00,0.3785138236518451e-02,0.5619615952404358e+00,0.3814629199517684e-02,
0.5724092815186362e+00,0.3842566733485300e-02,0.5823495672538734e+00,0.3869093316887355e-02,
0.5918249678197957e+00,0.3894348333795344e-02,0.6008778302882714e+00,0.3918474488962536e-02,
0.6095522840022940e+00,0.3941626226723230e-02,0.6178969082896937e+00,0.3963981072925327e-02,
0.6259684294183701e+00,0.3985755098069792e-02,0.6338368642128979e+00,0.4007224021775936e-02,
0.6415926549632834e+00,0.4028751796394626e-02,0.6493564801329609e+00,0.4050828701392520e-02,
0.6572925493481835e+00,0.4074120789204574e-02,0.6656262309872097e+00,0.4099531432075899e-02,
0.6746666723127143e+00,0.4128272797582476e-02,0.6848343774930394e+00,0.4161938830162795e-02,
0.6966920189552035e+00,0.4202559743668019e-02,0.7109733150553114e+00,0.4252599514137185e-02,
0.7285986885865631e+00,0.4314833901724070e-02,0.7506571441023483e+00,0.1156343000755387e-02,
0.1404504257957441e-02,0.7120061440091347e-02,0.1621310545540372e-02,0.3361118414788869e-01,
0.1810903712325119e-02,0.6804470745318068e-01,0.1977340288814310e-02,0.1051351961493040e+00,
0.2124181703071103e-02,0.1423133589772792e+00,0.2254430165931555e-02,0.1783222117476625e+00,
0.2370577235911165e-02,0.2125738546054181e+00,0.2474681149731246e-02,0.2448322054772776e+00,
0.2568443387429520e-02,0.2750483122588739e+00,0.2653275289328116e-02,0.3032717571879833e+00,
0.2730353093366796e-02,0.3296018469202774e+00,0.2800662377663822e-02,0.3541603675689819e+00,
0.2865033605362301e-02,0.3770763523850850e+00,0.2924170474532069e-02,0.3984776764701321e+00,
0.2978672551304409e-02,0.4184865833334669e+00,0.3029053394756756e-02,0.4372174902153924e+00,
0.3075755134140899e-02,0.4547761117084665e+00,0.3119160251996799e-02,0.4712593365381469e+00,
0.3159601161354295e-02,0.4867555224942895e+00,0.3197368036290039e-02,0.5013450107382228e+00,
0.3232715256012342e-02,0.5151007425806035e+00,0.3265866747398978e-02,0.5280889117936882e+00,
0.3297020454653708e-02,0.5403696166527656e+00,0.3326352123823280e-02,0.5519974959907685e+00,
0.3354018561785408e-02,0.5630223474016425e+00,0.3380160512425799e-02,0.5734897364461758e+00,
0.3404905286403203e-02,0.5834416154573392e+00,0.3428369285319778e-02,0.5929169809805325e+00,
0.3450660577239604e-02,0.6019526114875673e+00,0.3471881710106394e-02,0.6105839432336188e+00,
0.3492132995268978e-02,0.6188461635645998e+00,0.3511516558294448e-02,0.6267756293962286e+00,
0.3530141542180836e-02,0.6344117559126738e+00,0.3548130962196775e-02,0.6417995687010485e+00,
0.3565630852851213e-02,0.6489931729721409e+00,0.3582822510857449e-02,0.6560604660107811e+00,
0.3599938804777734e-02,0.6630894993854867e+00,0.3617285646093928e-02,0.6701969730666828e+00,
0.3635269699036237e-02,0.6775393849143700e+00,0.3654433055424882e-02,0.6853273049469121e+00,
0.3675494570182433e-02,0.6938429782822217e+00,0.3699395273559710e-02,0.7034607793792287e+00,
0.3727340922414418e-02,0.7146686166221226e+00,0.3760827388752240e-02,0.7280857713064263e+00,
0.3801623782166765e-02,0.7444684055765861e+00,0.3851675608889073e-02,0.7646881040691488e+00,
0.1031010001534118e-02,0.1252325311246044e-02,0.7123010369617354e-02,0.1445699377070109e-02,
0.3362780174930066e-01,0.1614821702453833e-02,0.6808371387504374e-01,0.1763306316297053e-02,
0.1052035845952689e+00,0.1894326321527065e-02,0.1424166653656900e+00,0.2010556629704488e-02,
0.1784647514196653e+00,0.2114217175592618e-02,0.2127589198858749e+00,0.2207141797804957e-02,
0.2450622274788554e+00,0.2290846453223580e-02,0.2753249929535957e+00,0.2366588574329418e-02,
0.3035961777269406e+00,0.2435416111636774e-02,0.3299745572968218e+00,0.2498207136828419e-02,
0.3545814616992661e+00,0.2555701517785104e-02,0.3775455317600242e+00,0.2608526182258946e-02,
0.3989943047683779e+00,0.2657215287010062e-02,0.4190497337604562e+00,0.2702226368977643e-02,
0.4378259868084232e+00,0.2743953334055468e-02,0.4554285653702798e+00,0.2782736954335406e-02,
0.4719541760694932e+00,0.2818873396984337e-02,0.4874910203110806e+00,0.2852621192436532e-02,
0.5021193021763500e+00,0.2884206960364913e-02,0.5159118365654818e+00,0.2913830143454304e-02,
0.5289346889752990e+00,0.2941666946802540e-02,0.5412478085861132e+00,0.2967873641281116e-02,
0.5529056351590590e+00,0.2992589359741792e-02,0.5639576722484761e+00,0.3015938493650994e-02,
0.5744490272864715e+00,0.3038032783280771e-02,0.5844209250482745e+00,0.3058973186216636e-02,
0.5939112061179864e+00,0.3078851606347056e-02,0.6029548271815797e+00,0.3097752568780461e-02,
0.6115843860580712e+00,0.3115754935792624e-02,0.6198307020754208e+00,0.3132933775825234e-02,
0.6277234924693847e+00,0.3149362522988406e-02,0.6352921987752219e+00,0.3165115600029473e-02,
0.6425670346395947e+00,0.3180271725033977e-02,0.6495803491305275e+00,0.3194918182718492e-02,
0.6563684284758635e+00,0.3209156415539186e-02,0.6629738949529550e+00,0.3223109375845204e-02,
0.6694489043071365e+00,0.3236931170179888e-02,0.6758593906225592e+00,0.3250819601641628e-02,
0.6822906541085610e+00,0.3265032236292007e-02,0.6888546193197504e+00,0.3279906508904962e-02,
0.6956990815908923e+00,0.3295884006098741e-02,0.7030191567938097e+00,0.3313538195666039e-02,
0.7110708644516797e+00,0.3333603169205194e-02,0.7201861618009667e+00,0.3356997989054186e-02,
0.7307875953685270e+00,0.3384836571738381e-02,0.7433987921789071e+00,0.3418406731492194e-02,
0.7586440923075350e+00,0.3459095390889103e-02,0.7772269308571649e+00,0.9250365544833106e-03,
0.1123642957047639e-02,0.7125507954787448e-02,0.1297191729022396e-02,0.3364188485222631e-01,
0.1448990578148682e-02,0.6811679517715986e-01,0.1582279947362813e-02,0.1052616326176499e+00,
0.1699905063056458e-02,0.1425044323407192e+00,0.1804264479385807e-02,0.1785859728026249e+00,
0.1897348784865108e-02,0.2129164803933608e+00,0.1980802350907045e-02,0.2452582966079122e+00,
0.2055984495008354e-02,0.2755611351402767e+00,0.2124022707017878e-02,0.3038734422531415e+00,
0.2185856628127736e-02,0.3302935522984499e+00,0.2242273566275012e-02,0.3549424157624133e+00,
0.2293936902368478e-02,0.3779483458160068e+00,0.2341408747104221e-02,0.3994385963604223e+00,
0.2385168029019629e-02,0.4195348752453025e+00,0.2425624979060079e-02,0.4383511386477932e+00,
0.2463132778750725e-02,0.4559927053277270e+00,0.2497996973377256e-02,0.4725561248235422e+00,
0.2530483119020393e-02,0.4881294636884907e+00,0.2560823028544199e-02,0.5027928098555960e+00,
0.2589219901343181e-02,0.5166188766435952e+00,0.2615852559843530e-02,0.5296736371549673e+00,
0.2640878968300298e-02,0.5420169498193963e+00,0.2664439173073012e-02,0.5537031542330662e+00,
0.2686657775798838e-02,0.5647816278134981e+00,0.2707646029843779e-02,0.5752973009271112e+00,
0.2727503634730079e-02,0.5852911327970665e+00,0.2746320291944519e-02,0.5948005537838443e+00,
0.2764177077984035e-02,0.6038598823049000e+00,0.2781147686318178e-02,0.6125007272671443e+00,
0.2797299589001256e-02,0.6207523898606691e+00,0.2812695171020565e-02,0.6286422822922934e+00,
0.2827392896389240e-02,0.6361963859104227e+00,0.2841448574941446e-02,0.6434397776056558e+00,
0.2854916813399088e-02,0.6503972618317222e+00,0.2867852754331386e-02,0.6570941566018360e+00,
0.2880314232961717e-02,0.6635572959395679e+00,0.2892364515113282e-02,0.6698163290468718e+00,
0.2904075820167642e-02,0.6759054182903871e+00,0.2915533879795195e-02,0.6818654639717365e+00,
0.2926843832981620e-02,0.6877470127613112e+00,0.2938137802322835e-02,0.6936140357564597e+00,
0.2949584518825127e-02,0.6995487849121559e+00,0.2961401330692262e-02,0.7056579402322907e+00,
0.2973868789530239e-02,0.7120802208967371e+00,0.2987347661611534e-02,0.7189955103325421e+00,
0.3002297518260188e-02,0.7266352712733982e+00,0.3019294818352010e-02,0.7352935018498777e+00,
0.3039046378540213e-02,0.7453365750657752e+00,0.3062391179964571e-02,0.7572088751614536e+00,
0.3090279763155639e-02,0.7714291475982730e+00,0.3123717004293759e-02,0.7885701646946724e+00,
0.8345540180276686e-03,0.1013764009388037e-02,0.7127645881665573e-02,0.1170376416196646e-02,
0.3365394644507796e-01,0.1307373442880687e-02,0.6814514556190449e-01,0.1427676957022642e-02,
0.1053114143093287e+00,0.1533852566639599e-02,0.1425797600037836e+00,0.1628063138328361e-02,
0.1786901034175123e+00,0.1712103666468225e-02,0.2130519545476170e+00,0.1787456941371129e-02,
0.2454270534974888e+00,0.1855348698944282e-02,0.2757646057348834e+00,0.1916795617374952e-02,
0.3041126250272165e+00,0.1972644976800254e-02,0.3305690752776119e+00,0.2023606687518786e-02,
0.3552545878917464e+00,0.2070278907560604e-02,0.3782971999927905e+00,0.2113168475544262e-02,
0.3998239259305988e+00,0.2152707223367783e-02,0.4199562653334393e+00,0.2189265039122685e-02,
0.4388079933534241e+00,0.2223160371923681e-02,0.4564842715530542e+00,0.2254668720923272e-02,
0.4730815132757386e+00,0.2284029531207622e-02,0.4886876674022503e+00,0.2311451825653930e-02,
0.5033827203854437e+00,0.2337118829323729e-02,0.5172392978550550e+00,0.2361191787080918e-02,
0.5303232962672809e+00,0.2383813132113577e-02,0.5426945049786824e+00,0.2405109129935129e-02,
0.5544071973678512e+00,0.2425192096951206e-02,0.5655106807683926e+00,0.2444162273064263e-02,
0.5760498017810869e+00,0.2462109412745146e-02,0.5860654077087351e+00,0.2479114147565534e-02,
0.5955947674756841e+00,0.2495249164658244e-02,0.6046719571441241e+00,0.2510580239462893e-02,
0.6133282164799120e+00,0.2525167157099261e-02,0.6215922842757839e+00,0.2539064554606323e-02,
0.6294907215579771e+00,0.2552322716028421e-02,0.6370482335961646e+00,0.2564988353967443e-02,
0.6442880040095037e+00,0.2577105414898926e-02,0.6512320574262512e+00,0.2588715951514404e-02,
0.6579016713460415e+00,0.2599861113932935e-02,0.6643178633382018e+00,0.2610582323220381e-02,
0.6705019867831056e+00,0.2620922705689986e-02,0.6764764773431096e+00,0.2630928885293276e-02,
0.6822658035386095e+00,0.2640653254172355e-02,0.6878976884216645e+00,0.2650156867702621e-02,
0.6934046853762110e+00,0.2659513138546438e-02,0.6988262090327138e+00,0.2668812530675645e-02,
0.7042111407137301e+00,0.2678168471535181e-02,0.7096211435207562e+00,0.2687724694622147e-02,
0.7151348288632315e+00,0.2697664171457851e-02,0.7208529025232651e+00,0.2708219651065415e-02,
0.7269043646867752e+00,0.2719685534125355e-02,0.7334537129952923e+00,0.2732430278157871e-02,
0.7407088522578688e+00,0.2746907645451310e-02,0.7489289818382320e+00,0.2763663754705104e-02,
0.7584310317783358e+00,0.2783335043530471e-02,0.7695921849731747e+00,0.2806630086397274e-02,
0.7828446706602086e+00,0.2834286424739216e-02,0.7986575762535248e+00,0.7568003719318281e-03,
0.9193373558789463e-03,0.7129483255703461e-02,0.1061389190056637e-02,0.3366431715745472e-01,
0.1185658720812506e-02,0.6816953450862767e-01,0.1294794350315917e-02,0.1053542656584974e+00,
0.1391121645368222e-02,0.1426446444034435e+00,0.1476601139740284e-02,0.1787798638427945e+00,
0.1552859914551620e-02,0.2131688271751633e+00,0.1621242048290884e-02,0.2455727658693272e+00,
0.1682858604168091e-02,0.2759404560655418e+00,0.1738631136850422e-02,0.3043195464558018e+00,
0.1789327643414803e-02,0.3308076883028777e+00,0.1835591597189766e-02,0.3555252435875009e+00,
0.1877965170693660e-02,0.3786000160301540e+00,0.1916907758736738e-02,0.4001588169674569e+00,
0.1952810766576543e-02,0.4203229689645817e+00,0.1986009452068925e-02,0.4392060925299616e+00,
0.2016792448794289e-02,0.4569132141578328e+00,0.2045409461693157e-02,0.4735406293653057e+00,
0.2072077518345742e-02,0.4891761844801786e+00,0.2096986074148179e-02,0.5038997769424400e+00,
0.2120301203878496e-02,0.5177839552843484e+00,0.2142169061433792e-02,0.5308945491240521e+00,
0.2162718750455528e-02,0.5432912893815535e+00,0.2182064718440740e-02,0.5550283971155782e+00,
0.2200308763672422e-02,0.5661551304354498e+00,0.2217541726297687e-02,0.5767162856210821e+00,
0.2233844920932215e-02,0.5867526525797927e+00,0.2249291357368938e-02,0.5963014271336025e+00,
0.2263946787643312e-02,0.6053965840290423e+00,0.2277870611359356e-02,0.6140692154201157e+00,
0.2291116666449641e-02,0.6223478401763524e+00,0.2303733929177061e-02,0.6302586899076299e+00,
0.2315767145022433e-02,0.6378259782215101e+00,0.2327257411049353e-02,0.6450721605572670e+00,
0.2338242730369626e-02,0.6520181930839076e+00,0.2348758560479908e-02,0.6586838007193958e+00,
0.2358838379587591e-02,0.6650877664469207e+00,0.2368514298725632e-02,0.6712482569089239e+00,
0.2377817752650840e-02,0.6771832029067320e+00,0.2386780309439892e-02,0.6829107580966474e+00,
0.2395434647564189e-02,0.6884498650357838e+00,0.2403815760225585e-02,0.6938209649667989e+00,
0.2411962459936224e-02,0.6990468964641346e+00,0.2419919271518965e-02,0.7041540382931724e+00,
0.2427738818137931e-02,0.7091737632918418e+00,0.2435484820891955e-02,0.7141442820039481e+00,
0.2443235844427740e-02,0.7191129655073966e+00,0.2451089922557623e-02,0.7241392431779231e+00,
0.2459170177943326e-02,0.7292981672564718e+00,0.2467631490367586e-02,0.7346847122783368e+00,
0.2476668140634181e-02,0.7404188178940524e+00,0.2486522120258960e-02,0.7466510642206331e+00,
0.2497491395393781e-02,0.7535686551625321e+00,0.2509936783254573e-02,0.7614010329283727e+00,
0.2524285190189721e-02,0.7704239097236394e+00,0.2541025785320841e-02,0.7809597539113882e+00,
0.2560694413103588e-02,0.7933718506147267e+00,0.2583840650378180e-02,0.8080481691101191e+00,
0.6694334606038313e-03,0.8132301052210061e-03,0.7131535707087396e-02,0.9389134630471259e-03,
0.3367590696807291e-01,0.1048872877008853e-02,0.6819680438492585e-01,0.1145449798724469e-02,
0.1054022066039507e+00,0.1230700342275683e-02,0.1427172823544694e+00,0.1306357911890783e-02,
0.1788804222099017e+00,0.1373861096813421e-02,0.2132998613259399e+00,0.1434398265869949e-02,
0.2457362721216975e+00,0.1488951760223115e-02,0.2761379595225904e+00,0.1538336359526358e-02,
0.3045521719476219e+00,0.1583231069003380e-02,0.3310762180672609e+00,0.1624204791259703e-02,
0.3558301646036297e+00,0.1661736860472097e-02,0.3789415592809941e+00,0.1696233421123923e-02,
0.4005369903859170e+00,0.1728040504318892e-02,0.4207375854097784e+00,0.1757454499192354e-02,
0.4396567938240963e+00,0.1784730573761186e-02,0.4573994919708219e+00,0.1810089479804955e-02,
0.4740618435452991e+00,0.1833723080526557e-02,0.4897315792782505e+00,0.1855798864682184e-02,
0.5044884954562696e+00,0.1876463652712977e-02,0.5184050523373731e+00,0.1895846655550170e-02,
0.5315470026926565e+00,0.1914062012192412e-02,0.5439740105721099e+00,0.1931210905475803e-02,
0.5557402385626821e+00,0.1947383334819745e-02,0.5668948928266588e+00,0.1962659608717758e-02,
0.5774827218315940e+00,0.1977111607276341e-02,0.5875444685962498e+00,0.1990803855373865e-02,
0.5971172785245406e+00,0.2003794439402125e-02,0.6062350661340985e+00,0.2016135794604195e-02,
0.6149288446198813e+00,0.2027875385387674e-02,0.6232270224896007e+00,0.2039056297414846e-02,
0.6311556716380911e+00,0.2049717757561867e-02,0.6387387713071162e+00,0.2059895595863033e-02,
0.6459984324868040e+00,0.2069622662222278e-02,0.6529551075171532e+00,0.2078929209927277e-02,
0.6596277899957604e+00,0.2087843257818011e-02,0.6660342106414446e+00,0.2096390943345113e-02,
0.6721910355553485e+00,0.2104596879732886e-02,0.6781140744196829e+00,0.2112484532090143e-02,
0.6838185076461196e+00,0.2120076629662863e-02,0.6893191434072465e+00,0.2127395634587425e-02,
0.6946307179415828e+00,0.2134464291583733e-02,0.6997682556089891e+00,0.2141306288121780e-02,
0.7047475089834524e+00,0.2147947060772256e-02,0.7095855038862376e+00,0.2154414790705499e-02,
0.7143012197281974e+00,0.2160741639474206e-02,0.7189164418059094e+00,0.2166965284859545e-02,
0.7234568290808686e+00,0.2173130824735037e-02,0.7279532479715103e+00,0.2179293122829263e-02,
0.7324434288116620e+00,0.2185519670818465e-02,0.7369740050569291e+00,0.2191894031123936e-02,
0.7416029929155098e+00,0.2198519895768168e-02,0.7464027556828451e+00,0.2205525735899346e-02,
0.7514634645503588e+00,0.2213069905688267e-02,0.7568970038541067e+00,0.2221345878507691e-02,
0.7628411564127120e+00,0.2230587003169685e-02,0.7694637214568848e+00,0.2241069745958558e-02,
0.7769659387231029e+00,0.2253113820886843e-02,0.7855841979737009e+00,0.2267076946734208e-02,
0.7955885073370143e+00,0.2283341347108146e-02,0.8072756369544127e+00,0.2302288836034036e-02,
0.8209544135936097e+00,0.5959608869219697e-03,0.7239930216451945e-03,0.7133279984105104e-02,
0.8359051841424598e-03,0.3368576099913345e-01,0.9338233700778646e-03,0.6822000216330427e-01,
0.1019831142421348e-02,0.1054430127732599e+00,0.1095758216195270e-02,0.1427791507549994e+00,
0.1163147152914922e-02,0.1789661337538298e+00,0.1223278163696114e-02,0.2134116378937676e+00,
0.1277208785600386e-02,0.2458758686973440e+00,0.1325813205911649e-02,0.2763067382696023e+00,
0.1369816492784942e-02,0.3047511618662466e+00,0.1409822883247175e-02,0.3313061633300986e+00,
0.1446338629616970e-02,0.3560915640558304e+00,0.1479790274040400e-02,0.3792346990474591e+00,
0.1510539225034315e-02,0.4008619710852165e+00,0.1538893395093506e-02,0.4210943451273732e+00,
0.1565116520065816e-02,0.4400451277298846e+00,0.1589435653602577e-02,0.4578190692609130e+00,
0.1612047223434259e-02,0.4745122222302962e+00,0.1633121950929719e-02,0.4902122192180130e+00,
0.1652808868600187e-02,0.5049987699443599e+00,0.1671238618449212e-02,0.5189442584592429e+00,
0.1688526174140261e-02,0.5321143706133679e+00,0.1704773099175760e-02,0.5445687118458739e+00,
0.1720069429524861e-02,0.5563613934916154e+00,0.1734495250750528e-02,0.5675415768232118e+00,
0.1748122025406067e-02,0.5781539706502274e+00,0.1761013715337100e-02,0.5882392821853880e+00,
0.1773227734809691e-02,0.5978346230971775e+00,0.1784815763538346e-02,0.6069738738486110e+00,
0.1795824443291854e-02,0.6156880099806809e+00,0.1806295977494385e-02,0.6240053941930317e+00,
0.1816268649874427e-02,0.6319520380671680e+00,0.1825777275563891e-02,0.6395518371737207e+00,
0.1834853595977716e-02,0.6468267831733790e+00,0.1843526627209035e-02,0.6537971564070679e+00,
0.1851822970482422e-02,0.6604817024077319e+00,0.1859767092366030e-02,0.6668977957794100e+00,
0.1867381581918830e-02,0.6730615950017611e+00,0.1874687391723729e-02,0.6789881919521960e+00,
0.1881704069826390e-02,0.6846917603173716e+00,0.1888449989971118e-02,0.6901857076183885e+00,
0.1894942588218185e-02,0.6954828363313554e+00,0.1901198615070921e-02,0.7005955205839351e+00,
0.1907234413674205e-02,0.7055359061912126e+00,0.1913066236513566e-02,0.7103161434075709e+00,
0.1918710615393293e-02,0.7149486637645913e+00,0.1924184802344570e-02,0.7194465147858177e+00,
0.1929507302533566e-02,0.7238237692546146e+00,0.1934698524185406e-02,0.7280960290730413e+00,
0.1939781574913619e-02,0.7322810475484290e+00,0.1944783238404899e-02,0.7363994980480986e+00,
0.1949735169676031e-02,0.7404759210790995e+00,0.1954675350226750e-02,0.7445398854214426e+00,
0.1959649844884542e-02,0.7486274009877383e+00,0.1964714897577384e-02,0.7527826199581922e+00,
0.1969939389932244e-02,0.7570598558183508e+00,0.1975407658858821e-02,0.7615259331570643e+00,
0.1981222619086292e-02,0.7662628484770114e+00,0.1987509053119538e-02,0.7713706654164001e+00,
0.1994416800895364e-02,0.7769704756416124e+00,0.2002123390500117e-02,0.7832071162571111e+00,
0.2010835389853712e-02,0.7902511335384258e+00,0.2020787431823991e-02,0.7982992156041412e+00,
0.2032237508156190e-02,0.8075719965967809e+00,0.2045456833973120e-02,0.8183078136932541e+00,
0.2060712530690398e-02,0.8307507916355182e+00,0.5338928457208802e-03,0.6486041055927330e-03,
0.7134757145335637e-02,0.7488783022520046e-03,0.3369410911427631e-01,0.8366191792139075e-03,
0.6823966328875077e-01,0.9136926200367255e-03,0.1054776147161770e+00,0.9817372289705744e-03,
0.1428316413133060e+00,0.1042134467481678e-02,0.1790388973189992e+00,0.1096030851195136e-02,
0.2135065916571426e+00,0.1144373475917349e-02,0.2459945403613866e+00,0.1187945232547193e-02,
0.2764503284138904e+00,0.1227395462237520e-02,0.3049205940601908e+00,0.1263265290388587e-02,
0.3315021246228428e+00,0.1296008087702652e-02,0.3563145379544189e+00,0.1326005836926910e-02,
0.3794849926333959e+00,0.1353582187798311e-02,0.4011397375442878e+00,0.1379012879924876e-02,
0.4213996026736057e+00,0.1402534089465843e-02,0.4403777756781442e+00,0.1424349141395722e-02,
0.4581789018294929e+00,0.1444633933714447e-02,0.4748989405223802e+00,0.1463541343583908e-02,
0.4906254417290438e+00,0.1481204825549461e-02,0.5054380418632013e+00,0.1497741365648968e-02,
0.5194090599684319e+00,0.1513253919449596e-02,0.5326041243428160e+00,0.1527833434485045e-02,
0.5450827895910497e+00,0.1541560536285142e-02,0.5568991222679660e+00,0.1554506940716115e-02,
0.5681022442899654e+00,0.1566736642551277e-02,0.5787368298952323e+00,0.1578306920207553e-02,
0.5888435558143096e+00,0.1589269188760702e-02,0.5984595065104622e+00,0.1599669727196656e-02,
0.6076185375122531e+00,0.1609550300992578e-02,0.6163516003945891e+00,0.1618948697263611e-02,
0.6246870331241742e+00,0.1627899186642147e-02,0.6326508194315295e+00,0.1636432923609736e-02,
0.6402668207058440e+00,0.1644578295050302e-02,0.6475569836949800e+00,0.1652361225240263e-02,
0.6545415270716048e+00,0.1659805444262448e-02,0.6612391097238539e+00,0.1666932725870720e-02,
0.6676669834625878e+00,0.1673763100099416e-02,0.6738411327196651e+00,0.1680315045376260e-02,
0.6797764037527307e+00,0.1686605664538830e-02,0.6854866258810527e+00,0.1692650848960719e-02,
0.6909847273635962e+00,0.1698465434958682e-02,0.6962828487057690e+00,0.1704063356777271e-02,
0.7013924564580136e+00,0.1709457800739110e-02,0.7063244609630221e+00,0.1714661365618782e-02,
0.7110893420369401e+00,0.1719686234962450e-02,0.7156972872545727e+00,0.1724544367953908e-02,
0.7201583483730915e+00,0.1729247716543003e-02,0.7244826224989144e+00,0.1733808477926433e-02,
0.7286804659046311e+00,0.1738239393121469e-02,0.7327627499609471e+00,0.1742554104306060e-02,
0.7367411704788124e+00,0.1746767585796486e-02,0.7406286238588718e+00,0.1750896665936375e-02,
0.7444396657879347e+00,0.1754960659646605e-02,0.7481910707203003e+00,0.1758982133685755e-02,
0.7519025128611727e+00,0.1762987828362212e-02,0.7555973915123056e+00,0.1767009759806471e-02,
0.7593038249053531e+00,0.1771086524820975e-02,0.7630558361569231e+00,0.1775264824037991e-02,
0.7668947513550588e+00,0.1779601206067178e-02,0.7708708209501843e+00,0.1784164011861242e-02,
0.7750450585439046e+00,0.1789035459753730e-02,0.7794912616154926e+00,0.1794313751342973e-02,
0.7842981311142257e+00,0.1800114989664162e-02,0.7895713343902400e+00,0.1806574577713146e-02,
0.7954352514919308e+00,0.1813847605191753e-02,0.8020340030828954e+00,0.1822107542131273e-02,
0.8095311799649906e+00,0.1831542366827648e-02,0.8181074940047334e+00,0.1842347120393410e-02,
0.8279553875468303e+00,0.1854711901010908e-02,0.8392695503623823e+00,0.4691372119147557e-03,
0.5699474625461373e-03,0.7136296792849224e-02,0.6580754336890405e-03,0.3370281338535284e-01,
0.7351932064547251e-03,0.6826017144205968e-01,0.8029397345236971e-03,0.1055137237879695e+00,
0.8627543786402343e-03,0.1428864460309730e+00,0.9158506408206921e-03,0.1791149115084724e+00,
0.9632356479495138e-03,0.2136058483079311e+00,0.1005741352235223e-02,0.2461186723532833e+00,
0.1044055462224991e-02,0.2766006332016539e+00,0.1078748370226813e-02,0.3050980855476346e+00,
0.1110295406319466e-02,0.3317075749743232e+00,0.1139094812215725e-02,0.3565485115490737e+00,
0.1165482118715345e-02,0.3797478738863422e+00,0.1189741614017051e-02,0.4014317539275095e+00,
0.1212115499934443e-02,0.4217208439626945e+00,0.1232811224277848e-02,0.4407282102151493e+00,
0.1252007377470389e-02,0.4585583904118685e+00,0.1269858457651580e-02,0.4753072483903950e+00,
0.1286498741428814e-02,0.4910622490186240e+00,0.1302045444889013e-02,0.5059029528099535e+00,
0.1316601318761973e-02,0.5199016110853500e+00,0.1330256790211312e-02,0.5331237917441728e+00,
0.1343091739511245e-02,0.5456289955944984e+00,0.1355176981171679e-02,0.5574712413729396e+00,
0.1366575504600436e-02,0.5686996086005114e+00,0.1377343518145096e-02,0.5793587340271479e+00,
0.1387531331581560e-02,0.5894892612975623e+00,0.1397184105238413e-02,0.5991282456659598e+00,
0.1406342488530390e-02,0.6083095167442896e+00,0.1415043166390284e-02,0.6170640027934311e+00,
0.1423319328684793e-02,0.6254200202131955e+00,0.1431201074983781e-02,0.6334035318149531e+00,
0.1438715764876940e-02,0.6410383772701038e+00,0.1445888322283529e-02,0.6483464788808477e+00,
0.1452741500792328e-02,0.6553480255553266e+00,0.1459296115932730e-02,0.6620616376107076e+00,
0.1465571249361709e-02,0.6685045147893643e+00,0.1471584429214883e-02,0.6746925696634154e+00,
0.1477351790282003e-02,0.6806405484266425e+00,0.1482888217204235e-02,0.6863621409335069e+00,
0.1488207473534721e-02,0.6918700817451654e+00,0.1493322319242184e-02,0.6971762438844605e+00,
0.1498244619060822e-02,0.7022917269886535e+00,0.1502985443992799e-02,0.7072269415837240e+00,
0.1507555168249840e-02,0.7119916912919050e+00,0.1511963563977790e-02,0.7165952549304837e+00,
0.1516219896245011e-02,0.7210464706718194e+00,0.1520333020996940e-02,0.7253538247205134e+00,
0.1524311488991586e-02,0.7295255473336399e+00,0.1528163659142506e-02,0.7335697194752111e+00,
0.1531897825216204e-02,0.7374943939689232e+00,0.1535522360469415e-02,0.7413077357064543e+00,
0.1539045885576599e-02,0.7450181862940887e+00,0.1542477466093639e-02,0.7486346594874230e+00,
0.1545826846727079e-02,0.7521667748753935e+00,0.1549104730812699e-02,0.7556251385226099e+00,
0.1552323114613247e-02,0.7590216806350385e+00,0.1555495687246740e-02,0.7623700617184821e+00,
0.1558638308120671e-02,0.7656861600411088e+00,0.1561769574454004e-02,0.7689886543012415e+00,
0.1564911491470015e-02,0.7722997159327905e+00,0.1568090256606748e-02,0.7756458249739051e+00,
0.1571337165828147e-02,0.7790587211550291e+00,0.1574689643692269e-02,0.7825764967678216e+00,
0.1578192387667105e-02,0.7862448284470696e+00,0.1581898599185298e-02,0.7901183291700260e+00,
0.1585871246475873e-02,0.7942619768635446e+00,0.1590184264311382e-02,0.7987525387422443e+00,
0.1594923540574454e-02,0.8036798573342322e+00,0.1600187467232215e-02,0.8091477920349469e+00,
0.1606086745205357e-02,0.8152745179862013e+00,0.1612743036112452e-02,0.8221917759509073e+00,
0.1620285966641179e-02,0.8300425555166407e+00,0.1628847946012576e-02,0.8389766067695471e+00,
0.1638556304338204e-02,0.8491431596995497e+00,0.4152983993727092e-03,0.5045486166497230e-03,
0.7137584516676377e-02,0.5825747502812775e-03,0.3371009582559231e-01,0.6508564339714855e-03,
0.6827733616228911e-01,0.7108440797559781e-03,0.1055439591076286e+00,0.7638115008710665e-03,
0.1429323580617065e+00,0.8108326421179145e-03,0.1791786256178479e+00,0.8527988118498596e-03,
0.2136890926697665e+00,0.8904462894848839e-03,0.2462228452780043e+00,0.9243836974156776e-03,
0.2767268570137912e+00,0.9551158310881699e-03,0.3052472497196298e+00,0.9830633537396636e-03,
0.3318803708195339e+00,0.1008578703487142e-02,0.3567454603219721e+00,0.1031958817701520e-02,
0.3799693497349148e+00,0.1053455282818112e-02,0.4016780028151404e+00,0.1073282437929197e-02,
0.4219919994202545e+00,0.1091623864253886e-02,0.4410243065866673e+00,0.1108637603920062e-02,
0.4588793741064279e+00,0.1124460377322258e-02,0.4756529875379346e+00,0.1139211008944395e-02,
0.4914325418394411e+00,0.1152993225032100e-02,0.5062975349402129e+00,0.1165897950461469e-02,
0.5203201620487163e+00,0.1178005204347923e-02,0.5335659407189512e+00,0.1189385672505494e-02,
0.5460943265934672e+00,0.1200102018320324e-02,0.5579592979271204e+00,0.1210209980791963e-02,
0.5692098980166754e+00,0.1219759298541784e-02,0.5798907312704116e+00,0.1228794490820103e-02,
0.5900424125337194e+00,0.1237355520454566e-02,0.5997019714820297e+00,0.1245478358886877e-02,
0.6089032150489527e+00,0.1253195469650359e-02,0.6176770513802826e+00,0.1260536223624142e-02,
0.6260517789476358e+00,0.1267527256990541e-02,0.6340533443783142e+00,0.1274192780889601e-02,
0.6417055723602078e+00,0.1280554850208162e-02,0.6490303707240170e+00,0.1286633597682126e-02,
0.6560479135277237e+00,0.1292447438469551e-02,0.6627768046927827e+00,0.1298013249521533e-02,
0.6692342244811716e+00,0.1303346527400884e-02,0.6754360608644642e+00,0.1308461527646537e-02,
0.6813970276241349e+00,0.1313371388331951e-02,0.6871307708378881e+00,0.1318088240100810e-02,
0.6926499652502783e+00,0.1322623304669488e-02,0.6979664018971263e+00,0.1326986983552337e-02,
0.7030910682519399e+00,0.1331188938584919e-02,0.7080342220886106e+00,0.1335238165685898e-02,
0.7128054602082953e+00,0.1339143063206245e-02,0.7174137831602817e+00,0.1342911496162030e-02,
0.7218676570980016e+00,0.1346550857633121e-02,0.7261750739540748e+00,0.1350068128634278e-02,
0.7303436111948426e+00,0.1353469937828520e-02,0.7343804925285762e+00,0.1356762622556962e-02,
0.7382926510963945e+00,0.1359952292807390e-02,0.7420867968756576e+00,0.1363044899939134e-02,
0.7457694902776256e+00,0.1366046312228174e-02,0.7493472242304510e+00,0.1368962399598178e-02,
0.7528265174113487e+00,0.1371799130263930e-02,0.7562140217340938e+00,0.1374562682436201e-02,
0.7595166477149035e+00,0.1377259574721566e-02,0.7627417119340626e+00,0.1379896819392827e-02,
0.7658971114809663e+00,0.1382482103293908e-02,0.7689915310079312e+00,0.1385024001753947e-02,
0.7720346888027838e+00,0.1387532231477270e-02,0.7750376290830836e+00,0.1390017948880056e-02,
0.7780130684490018e+00,0.1392494100651911e-02,0.7809758049987551e+00,0.1394975833264466e-02,
0.7839431988406547e+00,0.1397480967482131e-02,0.7869357323732872e+00,0.1400030542294373e-02,
0.7899776573739077e+00,0.1402649429581176e-02,0.7930977330965135e+00,0.1405367015557528e-02,
0.7963300544867956e+00,0.1408217936717937e-02,0.7997149612640727e+00,0.1411242845492577e-02,
0.8033000057004371e+00,0.1414489162825236e-02,0.8071409378596117e+00,0.1418011750045248e-02,
0.8113026400715047e+00,0.1421873399672547e-02,0.8158599058260445e+00,0.1426145003995468e-02,
0.8208979110240450e+00,0.1430905213100405e-02,0.8265121682023010e+00,0.1436239345537763e-02,
0.8328076907174899e+00,0.1442237275146430e-02,0.8398970330439564e+00,0.1448990003811190e-02,
0.8478968323160648e+00,0.1456584666833031e-02,0.8569224819892680e+00,0.3704312646343119e-03,
0.4500459652486567e-03,0.7138650748115411e-02,0.5196512293102546e-03,0.3371612727399277e-01,
0.5805664280060180e-03,0.6829155668533947e-01,0.6340849446568049e-03,0.1055690170651003e+00,
0.6813427081724704e-03,0.1429704232383565e+00,0.7232974239492588e-03,0.1792314731911011e+00,
0.7607439326118729e-03,0.2137581723047245e+00,0.7943388257980795e-03,0.2463093367632228e+00,
0.8246248539513289e-03,0.2768317147355182e+00,0.8520521766292996e-03,0.3053712382217758e+00,
0.8769959255269664e-03,0.3320240933589542e+00,0.8997703900142133e-03,0.3569093819512950e+00,
0.9206403645220593e-03,0.3801538161111002e+00,0.9398302000432456e-03,0.4018832556603875e+00,
0.9575310308788060e-03,0.4222181893493448e+00,0.9739065619456522e-03,0.4412715038513685e+00,
0.9890977229041295e-03,0.4591475776827830e+00,0.1003226429225417e-02,0.4759421328870969e+00,
0.1016398637371945e-02,0.4917425076000317e+00,0.1028706839793818e-02,0.5066281487544273e+00,
0.1040232113307033e-02,0.5206712056814181e+00,0.1051045809625145e-02,0.5339371545956020e+00,
0.1061210957702222e-02,0.5464854138565951e+00,0.1070783432788909e-02,0.5583699280903157e+00,
0.1079812935679248e-02,0.5696397102784545e+00,0.1088343816748556e-02,0.5803393375366303e+00,
0.1096415772455089e-02,0.5905094001856708e+00,0.1104064436547561e-02,0.6001869059172129e+00,
0.1111321883943327e-02,0.6094056420120871e+00,0.1118217061857135e-02,0.6181964990928702e+00,
0.1124776160068879e-02,0.6265877600346048e+00,0.1131022930068676e-02,0.6346053575793632e+00,
0.1136978961092068e-02,0.6422731040006305e+00,0.1142663919667303e-02,0.6496128959041625e+00,
0.1148095758170784e-02,0.6566448969707471e+00,0.1153290896971796e-02,0.6633877011656901e+00,
0.1158264384001310e-02,0.6698584786727629e+00,0.1163030034968892e-02,0.6760731065636836e+00,
0.1167600556950560e-02,0.6820462859911613e+00,0.1171987657658222e-02,0.6877916474950851e+00,
0.1176202142362038e-02,0.6933218458373045e+00,0.1180254000157654e-02,0.6986486456296808e+00,
0.1184152481040773e-02,0.7037829988914664e+00,0.1187906165063826e-02,0.7087351155643580e+00,
0.1191523024697338e-02,0.7135145279256490e+00,0.1195010481397003e-02,0.7181301497708876e+00,
0.1198375457282797e-02,0.7225903311867283e+00,0.1201624422765785e-02,0.7269029097019594e+00,
0.1204763440909706e-02,0.7310752585900764e+00,0.1207798209286642e-02,0.7351143331006847e+00,
0.1210734100078424e-02,0.7390267154202931e+00,0.1213576199187821e-02,0.7428186592069160e+00,
0.1216329345156313e-02,0.7464961346090013e+00,0.1218998168739366e-02,0.7500648747695434e+00,
0.1221587134066625e-02,0.7535304249333266e+00,0.1224100582415115e-02,0.7568981954218305e+00,
0.1226542779750137e-02,0.7601735199195562e+00,0.1228917969342930e-02,0.7633617207306558e+00,
0.1231230430958390e-02,0.7664681829190014e+00,0.1233484548321435e-02,0.7694984395410563e+00,
0.1235684886817594e-02,0.7724582705209949e+00,0.1237836283660978e-02,0.7753538181016055e+00,
0.1239943953067019e-02,0.7781917222296842e+00,0.1242013609290138e-02,0.7809792796931293e+00,
0.1244051610712973e-02,0.7837246313034256e+00,0.1246065128479356e-02,0.7864369818849385e+00,
0.1248062343408890e-02,0.7891268582478557e+00,0.1250052675057249e-02,0.7918064106168962e+00,
0.1252047046705140e-02,0.7944897630608011e+00,0.1254058189642781e-02,0.7971934181681546e+00,
0.1256100989185991e-02,0.7999367203284967e+00,0.1258192873167162e-02,0.8027423802037812e+00,
0.1260354240858018e-02,0.8056370599049799e+00,0.1262608925972372e-02,0.8086520134810325e+00,
0.1264984681034516e-02,0.8118237698928188e+00,0.1267513661363494e-02,0.8151948348470072e+00,
0.1270232874562430e-02,0.8188143727609828e+00,0.1273184545147458e-02,0.8227388097836817e+00,
0.1276416323542609e-02,0.8270322725064919e+00,0.1279981244520295e-02,0.8317667447053557e+00,
0.1283937313921567e-02,0.8370217873957335e+00,0.1288346577738765e-02,0.8428836291187909e+00,
0.1293273510746542e-02,0.8494434005718798e+00,0.1298782562596834e-02,0.8567942719004841e+00,
0.1304934730786103e-02,0.8650272688993226e+00,0.3247324487808653e-03,0.3945315229438140e-03,
0.7139767532965116e-02,0.4555578699667749e-03,0.3372244637254624e-01,0.5089677216150194e-03,
0.6830646000320412e-01,0.5558945983563953e-03,0.1055952873791690e+00,0.5973340508520150e-03,
0.1430103457525390e+00,0.6341254407194093e-03,0.1792869234600663e+00,0.6669653938797302e-03,
0.2138306885390802e+00,0.6964293711881412e-03,0.2464001780084456e+00,0.7229930587138452e-03,
0.2769419073380583e+00,0.7470509916283250e-03,0.3055016129403092e+00,0.7689319468807855e-03,
0.3321753151236530e+00,0.7889113759410095e-03,0.3570819738779806e+00,0.8072213501811222e-03,
0.3803481790268297e+00,0.8240584940970029e-03,0.4020996841123463e+00,0.8395903192560990e-03,
0.4224568848461668e+00,0.8539602966613761e-03,0.4415325859147346e+00,0.8672919359416600e-03,
0.4594310931563854e+00,0.8796920818161035e-03,0.4762480638503880e+00,0.8912535918781442e-03,
0.4920707781580621e+00,0.9020575233992923e-03,0.5069786309167420e+00,0.9121749286872399e-03,
0.5210437244980383e+00,0.9216683368023415e-03,0.5343314926832955e+00,0.9305929826843983e-03,
0.5469013154214589e+00,0.9389978318087510e-03,0.5588071025313237e+00,0.9469264384779324e-03,
0.5700978354396460e+00,0.9544176680744464e-03,0.5808180626619678e+00,0.9615063075283847e-03,
0.5910083486194518e+00,0.9682235834936652e-03,0.6007056775836025e+00,0.9745976039775797e-03,
0.6099438156993251e+00,0.9806537362012611e-03,0.6187536345605122e+00,0.9864149311092718e-03,
0.6271633999553797e+00,0.9919020030614374e-03,0.6351990293204530e+00,0.9971338717269585e-03,
0.6428843212420017e+00,0.1002127771980826e-02,0.6502411600835498e+00,0.1006899436614548e-02,
0.6572896985355157e+00,0.1011463255869661e-02,0.6640485206005013e+00,0.1015832417146389e-02,
0.6705347872580487e+00,0.1020019027701906e-02,0.6767643668025705e+00,0.1024034222710236e-02,
0.6827519516206730e+00,0.1027888260690500e-02,0.6885111629699746e+00,0.1031590608007845e-02,
0.6940546451402460e+00,0.1035150013900340e-02,0.6993941502179868e+00,0.1038574577276322e-02,
0.7045406145358273e+00,0.1041871806352736e-02,0.7095042277666803e+00,0.1045048672060125e-02,
0.7142944955177615e+00,0.1048111656019274e-02,0.7189202961898697e+00,0.1051066793794383e-02,
0.7233899327913630e+00,0.1053919714044959e-02,0.7277111803329067e+00,0.1056675674131018e-02,
0.7318913293773558e+00,0.1059339592671662e-02,0.7359372262783432e+00,0.1061916079514346e-02,
0.7398553106107196e+00,0.1064409463539858e-02,0.7436516502756216e+00,0.1066823818705570e-02,
0.7473319747524817e+00,0.1069162988716224e-02,0.7509017069698120e+00,0.1071430610707160e-02,
0.7543659942763458e+00,0.1073630138329335e-02,0.7577297390145481e+00,0.1075764864638867e-02,
0.7609976292302569e+00,0.1077837945216411e-02,0.7641741700960905e+00,0.1079852421973832e-02,
0.7672637166832609e+00,0.1081811248148003e-02,0.7702705087876981e+00,0.1083717315034678e-02,
0.7731987086032039e+00,0.1085573481080025e-02,0.7760524421380459e+00,0.1087382604024221e-02,
0.7788358453933391e+00,0.1089147576881027e-02,0.7815531164629429e+00,0.1090871368639801e-02,
0.7842085748763442e+00,0.1092557070691845e-02,0.7868067296884163e+00,0.1094207950110233e-02,
0.7893523580223542e+00,0.1095827511049306e-02,0.7918505959922322e+00,0.1097419565672728e-02,
0.7943070441648366e+00,0.1098988316160812e-02,0.7967278899584394e+00,0.1100538449478067e-02,
0.7991200496055508e+00,0.1102075246684770e-02,0.8014913325065773e+00,0.1103604708628230e-02,
0.8038506309404848e+00,0.1105133699816469e-02,0.8062081381315597e+00,0.1106670112111886e-02,
0.8085755975333251e+00,0.1108223049519360e-02,0.8109665857911905e+00,0.1109803034693859e-02,
0.8133968310607946e+00,0.1111422236740111e-02,0.8158845670237690e+00,0.1113094718271409e-02,
0.8184509208406880e+00,0.1114836697350123e-02,0.8211203301382262e+00,0.1116666816628120e-02,
0.8239209796093340e+00,0.1118606407495873e-02,0.8268852415235040e+00,0.1120679731089786e-02,
0.8300500959832002e+00,0.1122914170403457e-02,0.8334574957353696e+00,0.1125340338439976e-02,
0.8371546264999228e+00,0.1127992056534935e-02,0.8411939971620040e+00,0.1130906145334969e-02,
0.8456332754097852e+00,0.1134121959793832e-02,0.8505347650275864e+00,0.1137680591275090e-02,
0.8559644039843292e+00,0.1141623657948933e-02,0.8619901524142233e+00,0.1145991613898916e-02,
0.8686796434054859e+00,0.2875557040695001e-03,0.3493682107340224e-03,0.7140652840633392e-02,
0.4034136512140228e-03,0.3372745678580264e-01,0.4507156263114678e-03,0.6831827979235849e-01,
0.4922776751319498e-03,0.1056161282055053e+00,0.5289812044432154e-03,0.1430420271934089e+00,
0.5615693465755460e-03,0.1793309426893349e+00,0.5906588650957148e-03,0.2138882776015863e+00,
0.6167592500442515e-03,0.2464723498787023e+00,0.6402916548621664e-03,0.2770294926804611e+00,
0.6616053847329528e-03,0.3056052894425374e+00,0.6809915244670573e-03,0.3322956309926026e+00,
0.6986939459404484e-03,0.3572193667731841e+00,0.7149181133975426e-03,0.3805029914283647e+00,
0.7298381072985963e-03,0.4022721758944257e+00,0.7436022322429453e-03,0.4226472436509502e+00,
0.7563375079342728e-03,0.4417409357850834e+00,0.7681532808226864e-03,0.4596575017826150e+00,
0.7791441427437137e-03,0.4764925487070491e+00,0.7893923017930954e-03,0.4923333117464571e+00,
0.7989695184985524e-03,0.5072591452826548e+00,0.8079386954131118e-03,0.5213421151585618e+00,
0.8163551890154100e-03,0.5346476220690836e+00,0.8242678979707146e-03,0.5472350159192663e+00,
0.8317201703560293e-03,0.5591581791948586e+00,0.8387505635876626e-03,0.5704660684234719e+00,
0.8453934839008121e-03,0.5812032094226068e+00,0.8516797268548299e-03,0.5914101459193341e+00,
0.8576369361234619e-03,0.6011238433265917e+00,0.8632899945099273e-03,0.6103780506208373e+00,
0.8686613584996434e-03,0.6192036237904337e+00,0.8737713455743161e-03,0.6276288144678238e+00,
0.8786383818419733e-03,0.6356795272806594e+00,0.8832792161976796e-03,0.6433795492571825e+00,
0.8877091061492647e-03,0.6507507543610395e+00,0.8919419795673447e-03,0.6578132859480015e+00,
0.8959905759071083e-03,0.6645857196542166e+00,0.8998665698679513e-03,0.6710852089553720e+00,
0.9035806799802425e-03,0.6773276153852716e+00,0.9071427642160033e-03,0.6833276251737908e+00,
0.9105619043959713e-03,0.6890988538586815e+00,0.9138464808966333e-03,0.6946539402426604e+00,
0.9170042389371524e-03,0.7000046309052734e+00,0.9200423475395102e-03,0.7051618563365225e+00,
0.9229674520990890e-03,0.7101357996343394e+00,0.9257857213720340e-03,0.7149359585989350e+00,
0.9285028895757936e-03,0.7195712019621512e+00,0.9311242942067709e-03,0.7240498204076717e+00,
0.9336549101012279e-03,0.7283795729669328e+00,0.9360993802001778e-03,0.7325677293146301e+00,
0.9384620434241330e-03,0.7366211084358048e+00,0.9407469600177421e-03,0.7405461140927553e+00,
0.9429579346863432e-03,0.7443487674837327e+00,0.9450985378153066e-03,0.7480347374559778e+00,
0.9471721250379737e-03,0.7516093686126949e+00,0.9491818553984218e-03,0.7550777076367228e+00,
0.9511307083407467e-03,0.7584445281427596e+00,0.9530214997467334e-03,0.7617143543649362e+00,
0.9548568972384669e-03,0.7648914839873381e+00,0.9566394349615138e-03,0.7679800104318762e+00,
0.9583715280677518e-03,0.7709838449309258e+00,0.9600554871248025e-03,0.7739067387317117e+00,
0.9616935326914640e-03,0.7767523058059455e+00,0.9632878103157287e-03,0.7795240464721949e+00,
0.9648404062341729e-03,0.7822253723804877e+00,0.9663533640789765e-03,0.7848596333593397e+00,
0.9678287029319073e-03,0.7874301466854235e+00,0.9692684371035443e-03,0.7899402294061247e+00,
0.9706745980610886e-03,0.7923932344258477e+00,0.9720492589794330e-03,0.7947925911586078e+00,
0.9733945624476692e-03,0.7971418516523020e+00,0.9747127519265526e-03,0.7994447432038601e+00,
0.9760062076207416e-03,0.8017052286081833e+00,0.9772774875013604e-03,0.8039275753153862e+00,
0.9785293742870214e-03,0.8061164349067315e+00,0.9797649292608989e-03,0.8082769344340225e+00,
0.9809875538617746e-03,0.8104147812911904e+00,0.9822010600294816e-03,0.8125363833872510e+00,
0.9834097502974073e-03,0.8146489864477287e+00,0.9846185085894265e-03,0.8167608302603168e+00,
0.9858329025720855e-03,0.8188813255629256e+00,0.9870592982031828e-03,0.8210212529979992e+00,
0.9883049867630124e-03,0.8231929850588618e+00,0.9895783241000431e-03,0.8254107311438275e+00,
0.9908888810000608e-03,0.8276908045991552e+00,0.9922476024127977e-03,0.8300519088320196e+00,
0.9936669716440181e-03,0.8325154370399047e+00,0.9951611734340783e-03,0.8351057766377818e+00,
0.9967462469844778e-03,0.8378506048585280e+00,0.9984402163659223e-03,0.8407811560526175e+00,
0.1000263181294734e-02,0.8439324337673380e+00,0.1002237346041166e-02,0.8473433317092810e+00,
0.1004386958434913e-02,0.8510566173745598e+00,0.1006738125009853e-02,0.8551187210241215e+00,
0.1009318463085570e-02,0.8595792618934147e+00,0.1012156547280817e-02,0.8644902349222623e+00,
0.1015281108386375e-02,0.8699047776816512e+00,0.1018719948988823e-02,0.8758754423894201e+00,
0.2516072353014572e-03,0.3056959967091976e-03,0.7141513331248321e-02,0.3529898095786411e-03,
0.3373232773731790e-01,0.3943840897337921e-03,0.6832977329356830e-01,0.4307567414106005e-03,
0.1056363991444212e+00,0.4628788405472162e-03,0.1430728515532258e+00,0.4914005032824914e-03,
0.1793737852691615e+00,0.5168612968898808e-03,0.2139443476569179e+00,0.5397069428251232e-03,
0.2465426458452338e+00,0.5603058824394920e-03,0.2771148378485354e+00,0.5789637011504982e-03,
0.3057063604036936e+00,0.5959350504603019e-03,0.3324129804044311e+00,0.6114332776489099e-03,
0.3573534416826857e+00,0.6256381290223384e-03,0.3806541481236008e+00,0.6387018947049087e-03,
0.4024406920346254e+00,0.6507543147370997e-03,0.4228333282534617e+00,0.6619065080162839e-03,
0.4419447375155043e+00,0.6722541319677103e-03,0.4598791158936434e+00,0.6818799359437668e-03,
0.4767320228947860e+00,0.6908558354114982e-03,0.4925906511342484e+00,0.6992446058387721e-03,
0.5075343166976332e+00,0.7071012733743214e-03,0.5216350508314642e+00,0.7144742625858456e-03,
0.5349582228611499e+00,0.7214063485450536e-03,0.5475631541591856e+00,0.7279354505312647e-03,
0.5595037011924066e+00,0.7340952968696949e-03,0.5708287967136167e+00,0.7399159843938746e-03,
0.5815829447836500e+00,0.7454244513185431e-03,0.5918066692004921e+00,0.7506448786223955e-03,
0.6015369171138536e+00,0.7555990321360334e-03,0.6108074207645846e+00,0.7603065552321395e-03,
0.6196490208139152e+00,0.7647852201872223e-03,0.6280899548719071e+00,0.7690511448239667e-03,
0.6361561147571614e+00,0.7731189798710006e-03,0.6438712758203572e+00,0.7770020715316172e-03,
0.6512573014043507e+00,0.7807126029873436e-03,0.6583343252310160e+00,0.7842617179394069e-03,
0.6651209142221997e+00,0.7876596287823588e-03,0.6716342139918672e+00,0.7909157115868082e-03,
0.6778900789954702e+00,0.7940385897245874e-03,0.6839031890937339e+00,0.7970362076856718e-03,
0.6896871540821554e+00,0.7999158964005718e-03,0.6952546075538913e+00,0.8026844311858064e-03,
0.7006172913010297e+00,0.8053480832662807e-03,0.7057861313157792e+00,0.8079126656911605e-03,
0.7107713063270146e+00,0.8103835743445347e-03,0.7155823096970855e+00,0.8127658246549895e-03,
0.7202280054070732e+00,0.8150640845261530e-03,0.7247166787741905e+00,0.8172827039407797e-03,
0.7290560824713176e+00,0.8194257416320207e-03,0.7332534783544618e+00,0.8214969891654706e-03,
0.7373156755481164e+00,0.8234999927330391e-03,0.7412490651900622e+00,0.8254380729235324e-03,
0.7450596521952805e+00,0.8273143427041148e-03,0.7487530843625873e+00,0.8291317238207998e-03,
0.7523346791167432e+00,0.8308929618041609e-03,0.7558094481526250e+00,0.8326006397480466e-03,
0.7591821202261264e+00,0.8342571910138194e-03,0.7624571623184618e+00,0.8358649110001742e-03,
0.7656387993861767e+00,0.8374259681086725e-03,0.7687310328982383e+00,0.8389424140275449e-03,
0.7717376583539388e+00,0.8404161934509115e-03,0.7746622819709053e+00,0.8418491533472557e-03,
0.7775083367312448e+00,0.8432430518896748e-03,0.7802790979757885e+00,0.8445995671611185e-03,
0.7829776987415892e+00,0.8459203057504956e-03,0.7856071450464104e+00,0.8472068113602371e-03,
0.7881703313360623e+00,0.8484605735526905e-03,0.7906700563263103e+00,0.8496830367716911e-03,
0.7931090394909276e+00,0.8508756097868982e-03,0.7954899384715712e+00,0.8520396757221188e-03,
0.7978153677138051e+00,0.8531766028449861e-03,0.8000879186670883e+00,0.8542877563141193e-03,
0.8023101819251651e+00,0.8553745111013562e-03,0.8044847717273022e+00,0.8564382663308516e-03,
0.8066143532903718e+00,0.8574804613037265e-03,0.8087016734969329e+00,0.8585025935063833e-03,
0.8107495955250247e+00,0.8595062389322027e-03,0.8127611380708978e+00,0.8604930750795124e-03,
0.8147395198853895e+00,0.8614649070224791e-03,0.8166882104165335e+00,0.8624236969844257e-03,
0.8186109874227465e+00,0.8633715978728290e-03,0.8205120024888088e+00,0.8643109912587642e-03,
0.8223958554353771e+00,0.8652445302964463e-03,0.8242676786542088e+00,0.8661751880747444e-03,
0.8261332324148928e+00,0.8671063118639505e-03,0.8279990121599970e+00,0.8680416836568219e-03,
0.8298723687144858e+00,0.8689855872887505e-03,0.8317616421559534e+00,0.8699428822395237e-03,
0.8336763097907850e+00,0.8709190839453324e-03,0.8356271482143981e+00,0.8719204500557906e-03,
0.8376264087468918e+00,0.8729540715222103e-03,0.8396880045621392e+00,0.8740279666600877e-03,
0.8418277064895145e+00,0.8751511753462460e-03,0.8440633426727417e+00,0.8763338492436154e-03,
0.8464149949224021e+00,0.8775873323529089e-03,0.8489051816016571e+00,0.8789242242430914e-03,
0.8515590131598368e+00,0.8803584160127719e-03,0.8544043019385164e+00,0.8819050864333950e-03,
0.8574716026611897e+00,0.8835806429514380e-03,0.8607941542532526e+00,0.8854025895229178e-03,
0.8644076876951290e+00,0.8873893010135112e-03,0.8683500591389794e+00,0.8895596827024104e-03,
0.8726606635323475e+00,0.8919326940631082e-03,0.8773795829320804e+00,0.8945267194288889e-03,
0.8825464274388153e+00,0.2223192652822833e-03,0.2701145057190040e-03,0.7142201961578917e-02,
0.3119065510375409e-03,0.3373622651253249e-01,0.3484864321264339e-03,0.6833897467046082e-01,
0.3806297364820721e-03,0.1056526311462410e+00,0.4090176838012951e-03,0.1430975404471804e+00,
0.4342246342064952e-03,0.1794081097583843e+00,0.4567272828059632e-03,0.2139892833907438e+00,
0.4769194148963887e-03,0.2465990011834060e+00,0.4951265406555741e-03,0.2771832823761325e+00,
0.5116186382371055e-03,0.3057874476558851e+00,0.5266206864730374e-03,0.3325071660393497e+00,
0.5403211724599088e-03,0.3574610980955170e+00,0.5528788972227103e-03,0.3807755762784305e+00,
0.5644284045399662e-03,0.4025761311147353e+00,0.5750843154180597e-03,0.4229829635932437e+00,
0.5849447992701323e-03,0.4421087071714556e+00,0.5940943654599883e-03,0.4600575161312302e+00,
0.6026061192146514e-03,0.4769249128064807e+00,0.6105435941597527e-03,0.4927980565571165e+00,
0.6179622488629170e-03,0.5077562335628903e+00,0.6249106954973403e-03,0.5218714480507487e+00,
0.6314317138679972e-03,0.5352090448328407e+00,0.6375630925795459e-03,0.5478283229614227e+00,
0.6433383302749551e-03,0.5597831185164269e+00,0.6487872230220317e-03,0.5711223455807324e+00,
0.6539363586005573e-03,0.5818904910810551e+00,0.6588095342876049e-03,0.5921280630645867e+00,
0.6634281114812185e-03,0.6018719941845592e+00,0.6678113179369536e-03,0.6111560033299172e+00,
0.6719765063612168e-03,0.6200109188606474e+00,0.6759393764906060e-03,0.6284649670553408e+00,
0.6797141664962577e-03,0.6365440293006893e+00,0.6833138185165485e-03,0.6442718713535327e+00,
0.6867501222863375e-03,0.6516703477465010e+00,0.6900338401544602e-03,0.6587595841259685e+00,
0.6931748162308895e-03,0.6655581400283747e+00,0.6961820719554190e-03,0.6720831543307668e+00,
0.6990638900109890e-03,0.6783504753604156e+00,0.7018278882011304e-03,0.6843747774195197e+00,
0.7044810846600041e-03,0.6901696652750492e+00,0.7070299555552817e-03,0.6957477679800600e+00,
0.7094804862707378e-03,0.7011208232299629e+00,0.7118382169105868e-03,0.7062997533135354e+00,
0.7141082828461975e-03,0.7112947335920807e+00,0.7162954509237486e-03,0.7161152543292093e+00,
0.7184041518653100e-03,0.7207701765965301e+00,0.7204385093230375e-03,0.7252677828954485e+00,
0.7224023659844376e-03,0.7296158230608452e+00,0.7242993070741803e-03,0.7338215559473337e+00,
0.7261326815532289e-03,0.7378917873419190e+00,0.7279056212778734e-03,0.7418329044971879e+00,
0.7296210583486120e-03,0.7456509076357754e+00,0.7312817408508591e-03,0.7493514387389932e+00,
0.7328902471654913e-03,0.7529398078995253e+00,0.7344489990066897e-03,0.7564210174894084e+00,
0.7359602733269230e-03,0.7597997843696404e+00,0.7374262132138434e-03,0.7630805603462782e+00,
0.7388488378909974e-03,0.7662675510594492e+00,0.7402300519233290e-03,0.7693647334760026e+00,
0.7415716537192339e-03,0.7723758721433454e+00,0.7428753434132293e-03,0.7753045343511121e+00,
0.7441427302069922e-03,0.7781541043385911e+00,0.7453753392414597e-03,0.7809277966791059e+00,
0.7465746180687905e-03,0.7836286689677923e+00,0.7477419427901918e-03,0.7862596339363163e+00,
0.7488786239238555e-03,0.7888234711170709e+00,0.7499859120665148e-03,0.7913228381802210e+00,
0.7510650034123837e-03,0.7937602820697135e+00,0.7521170451945067e-03,0.7961382500690559e+00,
0.7531431411158165e-03,0.7984591009343806e+00,0.7541443568405107e-03,0.8007251162411515e+00,
0.7551217256207493e-03,0.8029385121019574e+00,0.7560762541391865e-03,0.8051014514262963e+00,
0.7570089286545360e-03,0.8072160569092491e+00,0.7579207215452834e-03,0.8092844249546161e+00,
0.7588125983558522e-03,0.8113086407595959e+00,0.7596855254600513e-03,0.8132907948125792e+00,
0.7605404784685073e-03,0.8152330010832001e+00,0.7613784515200193e-03,0.8171374172145180e+00,
0.7622004676113267e-03,0.8190062670610542e+00,0.7630075901355534e-03,0.8208418659532486e+00,
0.7638009358163845e-03,0.8226466491084072e+00,0.7645816892425407e-03,0.8244232036498043e+00,
0.7653511192248359e-03,0.8261743047383627e+00,0.7661105972153171e-03,0.8279029563638637e+00,
0.7668616180436525e-03,0.8296124373828724e+00,0.7676058232385865e-03,0.8313063534256175e+00,
0.7683450272099249e-03,0.8329886953198786e+00,0.7690812465664271e-03,0.8346639046910128e+00,
0.7698167328335732e-03,0.8363369473861753e+00,0.7705540088076615e-03,0.8380133953277569e+00,
0.7712959087329680e-03,0.8396995173132502e+00,0.7720456224088709e-03,0.8414023791296488e+00,
0.7728067432140554e-03,0.8431299531191393e+00,0.7735833198629735e-03,0.8448912369930949e+00,
0.7743799114709090e-03,0.8466963812112370e+00,0.7752016451809945e-03,0.8485568235840266e+00,
0.7760542751796869e-03,0.8504854288745330e+00,0.7769442413753351e-03,0.8524966300217779e+00,
0.7778787253163293e-03,0.8546065661289765e+00,0.7788657000623884e-03,0.8568332105076614e+00,
0.7799139696833306e-03,0.8591964798032911e+00,0.7810331928461635e-03,0.8617183125335791e+00,
0.7822338835880836e-03,0.8644227022726899e+00,0.7835273809189877e-03,0.8673356673041829e+00,
0.7849257774604757e-03,0.8704851350330804e+00,0.7864417960824488e-03,0.8739007161188697e+00,
0.7880886026971684e-03,0.8776133406687650e+00,0.7898795433580249e-03,0.8816547276255949e+00,
0.7918277950171212e-03,0.8860566596308294e+00,0.7939459222137213e-03,0.8908500402679119e+00,
0.1944104808172863e-03,0.2362079689279158e-03,0.7142870645995927e-02,0.2727565493010114e-03,
0.3374001298187475e-01,0.3047478195749429e-03,0.6834791269705134e-01,0.3328598979745383e-03,
0.1056684019862271e+00,0.3576884028469226e-03,0.1431215337265024e+00,0.3797355245930193e-03,
0.1794414760981541e+00,0.3994180621642384e-03,0.2140329776183974e+00,0.4170803229573239e-03,
0.2466538170423533e+00,0.4330069180398755e-03,0.2772498801896881e+00,0.4474339038008580e-03,
0.3058663763636773e+00,0.4605579911155484e-03,0.3325988808094674e+00,0.4725439839337465e-03,
0.3575659744772789e+00,0.4835307298323497e-03,0.3808939216502081e+00,0.4936358667461324e-03,
0.4027081940104168e+00,0.5029596128586884e-03,0.4231289413573305e+00,0.5115878016710237e-03,
0.4422687522901076e+00,0.5195943228286058e-03,0.4602317415082190e+00,0.5270430946153614e-03,
0.4771133961932997e+00,0.5339896662637906e-03,0.4930008443009192e+00,0.5404825264865527e-03,
0.5079733438010129e+00,0.5465641777837335e-03,0.5221028734536995e+00,0.5522720230787040e-03,
0.5354547549768437e+00,0.5576391012124826e-03,0.5480882663954187e+00,0.5626947000884556e-03,
0.5600572245757691e+00,0.5674648702683609e-03,0.5714105259898375e+00,0.5719728571649507e-03,
0.5821926413793687e+00,0.5762394663436609e-03,0.5924440638839293e+00,0.5802833735974854e-03,
0.6022017124008726e+00,0.5841213892159104e-03,0.6114992931083616e+00,0.5877686840933180e-03,
0.6203676226097062e+00,0.5912389839103901e-03,0.6288349163028890e+00,0.5945447364939478e-03,
0.6369270455027728e+00,0.5976972565551031e-03,0.6446677666447655e+00,0.6007068512753596e-03,
0.6520789256394534e+00,0.6035829296188046e-03,0.6591806401656133e+00,0.6063340977673600e-03,
0.6659914624065441e+00,0.6089682426829690e-03,0.6725285244645836e+00,0.6114926054781716e-03,
0.6788076684377859e+00,0.6139138460109964e-03,0.6848435629139552e+00,0.6162380999006194e-03,
0.6906498074313085e+00,0.6184710289781289e-03,0.6962390262713238e+00,0.6206178660351128e-03,
0.7016229527864589e+00,0.6226834546060954e-03,0.7068125053216801e+00,0.6246722844146502e-03,
0.7118178556622645e+00,0.6265885230237052e-03,0.7166484908292960e+00,0.6284360441552101e-03,
0.7213132689469173e+00,0.6302184530805945e-03,0.7258204698201126e+00,0.6319391094293539e-03,
0.7301778407871102e+00,0.6336011477170803e-03,0.7343926383451020e+00,0.6352074958549976e-03,
0.7384716659907177e+00,0.6367608918694911e-03,0.7424213086665331e+00,0.6382638990313429e-03,
0.7462475641609494e+00,0.6397189195696667e-03,0.7499560717702578e+00,0.6411282071242605e-03,
0.7535521384979339e+00,0.6424938780717482e-03,0.7570407630365846e+00,0.6438179218450410e-03,
0.7604266577520002e+00,0.6451022103519516e-03,0.7637142688659893e+00,0.6463485065869407e-03,
0.7669077950147200e+00,0.6475584725197199e-03,0.7700112043418378e+00,0.6487336763355520e-03,
0.7730282502703713e+00,0.6498755990944187e-03,0.7759624860841656e+00,0.6509856408696007e-03,
0.7788172784380623e+00,0.6520651264205267e-03,0.7815958199061201e+00,0.6531153104498718e-03,
0.7843011406686931e+00,0.6541373824907588e-03,0.7869361194320170e+00,0.6551324714664429e-03,
0.7895034936680300e+00,0.6561016499619955e-03,0.7920058692573547e+00,0.6570459382452019e-03,
0.7944457296146663e+00,0.6579663080720945e-03,0.7968254443729997e+00,0.6588636863112547e-03,
0.7991472777018847e+00,0.6597389584201900e-03,0.8014133963335314e+00,0.6605929718067311e-03,
0.8036258773716017e+00,0.6614265391084759e-03,0.8057867159584249e+00,0.6622404414238483e-03,
0.8078978328788472e+00,0.6630354315293254e-03,0.8099610821822975e+00,0.6638122371188470e-03,
0.8119782589091303e+00,0.6645715641033481e-03,0.8139511070129370e+00,0.6653141000107842e-03,
0.8158813275773382e+00,0.6660405175299571e-03,0.8177705874338767e+00,0.6667514782449204e-03,
0.8196205282970527e+00,0.6674476366107756e-03,0.8214327765433879e+00,0.6681296442262653e-03,
0.8232089537737035e+00,0.6687981544637654e-03,0.8249506883116352e+00,0.6694538275230569e-03,
0.8266596278067956e+00,0.6700973359816298e-03,0.8283374531279623e+00,0.6707293709212047e-03,
0.8299858937501698e+00,0.6713506487175972e-03,0.8316067448595303e+00,0.6719619185889133e-03,
0.8332018864208099e+00,0.6725639710052013e-03,0.8347733044749573e+00,0.6731576470708964e-03,
0.8363231149564427e+00,0.6737438489993667e-03,0.8378535903427503e+00,0.6743235518061943e-03,
0.8393671894697208e+00,0.6748978163539151e-03,0.8408665908653167e+00,0.6754678038850311e-03,
0.8423547299689949e+00,0.6760347921811532e-03,0.8438348406117731e+00,0.6766001934827970e-03,
0.8453105011300979e+00,0.6771655742948709e-03,0.8467856854705638e+00,0.6777326771850360e-03,
0.8482648196070496e+00,0.6783034446530447e-03,0.8497528435300649e+00,0.6788800451053436e-03,
0.8512552789714525e+00,0.6794649009063183e-03,0.8527783028853924e+00,0.6800607183903051e-03,
0.8543288265058852e+00,0.6806705196006733e-03,0.8559145795259218e+00,0.6812976753667025e-03,
0.8575441985760544e+00,0.6819459391275817e-03,0.8592273186991227e+00,0.6826194806570309e-03,
0.8609746659004744e+00,0.6833229185231614e-03,0.8627981480750792e+00,0.6840613497285638e-03,
0.8647109406514445e+00,0.6848403745099397e-03,0.8667275621282101e+00,0.6856661137341258e-03,
0.8688639333027147e+00,0.6865452157148280e-03,0.8711374124074637e+00,0.6874848486099405e-03,
0.8735667966111716e+00,0.6884926738773656e-03,0.8761722784739423e+00,0.6895767956239815e-03,
0.8789753440908044e+00,0.6907456801615706e-03,0.8819985980014631e+00,0.6920080398012621e-03,
0.8852654987569412e+00,0.6933726750250028e-03,0.8887999886800295e+00,0.6948482698509175e-03,
0.8926260022952612e+00,0.6964431366613300e-03,0.8967668406721245e+00,0.1687522084062742e-03,
0.2050350430521891e-03,0.7143489225104815e-02,0.2367622652786059e-03,0.3374351625166600e-01,
0.2645340906026387e-03,0.6835618366232366e-01,0.2889390544558335e-03,0.1056829987008023e+00,
0.3104940979691790e-03,0.1431437456375445e+00,0.3296350786177901e-03,0.1794723727318731e+00,
0.3467237429868135e-03,0.2140734485464243e+00,0.3620589217153205e-03,0.2467046039766637e+00,
0.3758876341573480e-03,0.2773116025546536e+00,0.3884147581578293e-03,0.3059395516583021e+00,
0.3998110227339366e-03,0.3326839408735750e+00,0.4102194641152033e-03,0.3576632785546656e+00,
0.4197605903284232e-03,0.3810037669469621e+00,0.4285365009823915e-03,0.4028308242884812e+00,
0.4366341766023805e-03,0.4232645539797606e+00,0.4441281128435874e-03,0.4424175040394658e+00,
0.4510824389517647e-03,0.4603937534270471e+00,0.4575526297479205e-03,0.4772887576403662e+00,
0.4635868963219365e-03,0.4931896163747717e+00,0.4692273217485011e-03,0.5081755622500645e+00,
0.4745107935135632e-03,0.5223185511672184e+00,0.4794697730555439e-03,0.5356838841319745e+00,
0.4841329341264508e-03,0.5483308203204026e+00,0.4885256949620448e-03,0.5603131593778051e+00,
0.4926706640505523e-03,0.5716797819868060e+00,0.4965880152488166e-03,0.5824751443673352e+00,
0.5002958048415423e-03,0.5927397262665235e+00,0.5038102406673260e-03,0.6025104342019820e+00,
0.5071459114881099e-03,0.6118209628858234e+00,0.5103159832377398e-03,0.6207021182846412e+00,
0.5133323675598979e-03,0.6291821059168485e+00,0.5162058670665758e-03,0.6372867879128392e+00,
0.5189463009622880e-03,0.6450399121650791e+00,0.5215626140454308e-03,0.6524633166362535e+00,
0.5240629715848112e-03,0.6595771116117261e+00,0.5264548421517410e-03,0.6663998424002746e+00,
0.5287450701469129e-03,0.6729486347171443e+00,0.5309399394814304e-03,0.6792393247326799e+00,
0.5330452296408964e-03,0.6852865755411093e+00,0.5350662651709710e-03,0.6911039815981985e+00,
0.5370079594647384e-03,0.6967041624928251e+00,0.5388748536006167e-03,0.7020988472546843e+00,
0.5406711508695714e-03,0.7072989502566063e+00,0.5424007475382063e-03,0.7123146396434907e+00,
0.5440672603167729e-03,0.7171553991088069e+00,0.5456740509357201e-03,0.7218300837422168e+00,
0.5472242481790601e-03,0.7263469705865458e+00,0.5487207676758462e-03,0.7307138044675716e+00,
0.5501663297110800e-03,0.7349378395946277e+00,0.5515634752832510e-03,0.7390258773726449e+00,
0.5529145806065207e-03,0.7429843008159668e+00,0.5542218702305272e-03,0.7468191059101640e+00,
0.5554874289292619e-03,0.7505359302293567e+00,0.5567132124919160e-03,0.7541400790825443e+00,
0.5579010575325747e-03,0.7576365494325465e+00,0.5590526904217706e-03,0.7610300518048509e+00,
0.5601697354308827e-03,0.7643250303805051e+00,0.5612537221699207e-03,0.7675256814467769e+00,
0.5623060923901496e-03,0.7706359703613220e+00,0.5633282062150818e-03,0.7736596471697186e+00,
0.5643213478564601e-03,0.7766002610022336e+00,0.5652867308658178e-03,0.7794611733633313e+00,
0.5662255029669265e-03,0.7822455704165419e+00,0.5671387505098367e-03,0.7849564743577130e+00,
0.5680275025831865e-03,0.7875967539612229e+00,0.5688927348179374e-03,0.7901691343763252e+00,
0.5697353729126355e-03,0.7926762062443136e+00,0.5705562959076292e-03,0.7951204342015494e+00,
0.5713563392333756e-03,0.7975041648285145e+00,0.5721362975559819e-03,0.7998296341008703e+00,
0.5728969274414422e-03,0.8020989743949635e+00,0.5736389498586027e-03,0.8043142210972835e+00,
0.5743630525397174e-03,0.8064773188650033e+00,0.5750698922165000e-03,0.8085901275829018e+00,
0.5757600967488519e-03,0.8106544280606480e+00,0.5764342671629149e-03,0.8126719275136132e+00,
0.5770929796147660e-03,0.8146442648700573e+00,0.5777367872959363e-03,0.8165730159477090e+00,
0.5783662222969873e-03,0.8184596985434300e+00,0.5789817974456180e-03,0.8203057774808211e+00,
0.5795840081362118e-03,0.8221126696623233e+00,0.5801733341683536e-03,0.8238817491745800e+00,
0.5807502416126773e-03,0.8256143524986065e+00,0.5813151847234263e-03,0.8273117838796568e+00,
0.5818686079183535e-03,0.8289753209156332e+00,0.5824109478480398e-03,0.8306062204274619e+00,
0.5829426355783928e-03,0.8322057246800982e+00,0.5834640989120021e-03,0.8337750680287443e+00,
0.5839757648761715e-03,0.8353154840714917e+00,0.5844780624078450e-03,0.8368282133969516e+00,
0.5849714252682631e-03,0.8383145120235179e+00,0.5854562952230521e-03,0.8397756606357110e+00,
0.5859331255265216e-03,0.8412129747325485e+00,0.5864023847522156e-03,0.8426278158130220e+00,
0.5868645610151844e-03,0.8440216037344282e+00,0.5873201666349592e-03,0.8453958303903653e+00,
0.5877697432917324e-03,0.8467520748664289e+00,0.5882138677316644e-03,0.8480920202427393e+00,
0.5886531580803781e-03,0.8494174722229419e+00,0.5890882808263732e-03,0.8507303797787185e+00,
0.5895199585379871e-03,0.8520328580063178e+00,0.5899489783783064e-03,0.8533272133961881e+00,
0.5903762014816018e-03,0.8546159717171726e+00,0.5908025732518324e-03,0.8559019087112308e+00,
0.5912291346377758e-03,0.8571880837811910e+00,0.5916570344294526e-03,0.8584778768299521e+00,
0.5920875426055483e-03,0.8597750283715609e+00,0.5925220647400795e-03,0.8610836829786467e+00,
0.5929621574468788e-03,0.8624084360518852e+00,0.5934095448005555e-03,0.8637543837896255e+00,
0.5938661356200435e-03,0.8651271760926207e+00,0.5943340414329835e-03,0.8665330719519609e+00,
0.5948155948529893e-03,0.8679789966288171e+00,0.5953133679941353e-03,0.8694725996326264e+00,
0.5958301904145430e-03,0.8710223121296252e+00,0.5963691659207649e-03,0.8726374019561604e+00,
0.5969336873744813e-03,0.8743280238622816e+00,0.5975274484218217e-03,0.8761052619650037e+00,
0.5981544508145503e-03,0.8779811606467381e+00,0.5988190057157910e-03,0.8799687393004150e+00,
0.5995257270899495e-03,0.8820819854186045e+00,0.6002795149823573e-03,0.8843358195863941e+00,
0.6010855262223838e-03,0.8867460250263935e+00,0.6019491298677465e-03,0.8893291335470804e+00,
0.6028758445922773e-03,0.8921022591848045e+00,0.6038712552612012e-03,0.8950828706648276e+00,
0.6049409062046725e-03,0.8982884942350033e+00,0.6060901692668509e-03,0.9017363396754307e+00,
0.1481251565099711e-03,0.1799742621307956e-03,0.7143974934319647e-02,0.2078249765617697e-03,
0.3374626735466673e-01,0.2322040770469374e-03,0.6836267972058510e-01,0.2536281024389343e-03,
0.1056944648470500e+00,0.2725507603509361e-03,0.1431611968300346e+00,0.2893545952483257e-03,
0.1794966519846322e+00,0.3043571067937865e-03,0.2141052583069300e+00,0.3178205747305427e-03,
0.2467445313185863e+00,0.3299618049127232e-03,0.2773601392459256e+00,0.3409606161517330e-03,
0.3059971101361032e+00,0.3509668551995601e-03,0.3327508670011682e+00,0.3601060630945735e-03,
0.3577398618615326e+00,0.3684840080409944e-03,0.3810902489006329e+00,0.3761903012944965e-03,
0.4029274050222500e+00,0.3833012841788339e-03,0.4233713978033811e+00,0.3898823401138323e-03,
0.4425347439853034e+00,0.3959897539743794e-03,0.4605214950272289e+00,0.4016722146902933e-03,
0.4774270820870889e+00,0.4069720358522181e-03,0.4933385831828130e+00,0.4119261525257769e-03,
0.5083352115151812e+00,0.4165669396400193e-03,0.5224889054945915e+00,0.4209228874124991e-03,
0.5358649502937634e+00,0.4250191616382618e-03,0.5485225906897057e+00,0.4288780707755034e-03,
0.5605156131771371e+00,0.4325194571969843e-03,0.5718928863819531e+00,0.4359610264298928e-03,
0.5826988554317172e+00,0.4392186254392934e-03,0.5929739898366225e+00,0.4423064788406665e-03,
0.6027551866407443e+00,0.4452373902181403e-03,0.6120761317679944e+00,0.4480229143725210e-03,
0.6209676230156103e+00,0.4506735052476993e-03,0.6294578582946426e+00,0.4531986434246486e-03,
0.6375726926413187e+00,0.4556069463824008e-03,0.6453358673250855e+00,0.4579062641690959e-03,
0.6527692141203824e+00,0.4601037626756183e-03,0.6598928375275065e+00,0.4622059963377751e-03,
0.6667252774457851e+00,0.4642189717935211e-03,0.6732836545324753e+00,0.4661482037761131e-03,
0.6795838002301146e+00,0.4679987643218002e-03,0.6856403732164480e+00,0.4697753262034514e-03,
0.6914669638252581e+00,0.4714822013627870e-03,0.6970761878028088e+00,0.4731233749983658e-03,
0.7024797706018147e+00,0.4747025358699538e-03,0.7076886232711463e+00,0.4762231032989864e-03,
0.7127129108730295e+00,0.4776882512767774e-03,0.7175621142484538e+00,0.4791009300347118e-03,
0.7222450858541227e+00,0.4804638853820701e-03,0.7267701003089460e+00,0.4817796760758937e-03,
0.7311449002133155e+00,0.4830506894522046e-03,0.7353767377389203e+00,0.4842791555179398e-03,
0.7394724124294618e+00,0.4854671596773276e-03,0.7434383056023196e+00,0.4866166542444491e-03,
0.7472804116970708e+00,0.4877294688748149e-03,0.7510043668780048e+00,0.4888073200324911e-03,
0.7546154751637144e+00,0.4898518195952196e-03,0.7581187323268813e+00,0.4908644826877864e-03,
0.7615188477809879e+00,0.4918467348233061e-03,0.7648202646474365e+00,0.4927999184228891e-03,
0.7680271781760355e+00,0.4937252987761405e-03,0.7711435526736958e+00,0.4946240694979417e-03,
0.7741731370801548e+00,0.4954973575308488e-03,0.7771194793153748e+00,0.4963462277370809e-03,
0.7799859395107068e+00,0.4971716871193750e-03,0.7827757022247849e+00,0.4979746887058557e-03,
0.7854917877352522e+00,0.4987561351304407e-03,0.7881370624886681e+00,0.4995168819371097e-03,
0.7907142487831792e+00,0.5002577406335545e-03,0.7932259337516524e+00,0.5009794815172498e-03,
0.7956745777068556e+00,0.5016828362948059e-03,0.7980625219048639e+00,0.5023685005135441e-03,
0.8003919957780823e+00,0.5030371358225455e-03,0.8026651236850512e+00,0.5036893720789472e-03,
0.8048839312204863e+00,0.5043258093139596e-03,0.8070503511257529e+00,0.5049470195719527e-03,
0.8091662288371395e+00,0.5055535486349787e-03,0.8112333277068590e+00,0.5061459176442604e-03,
0.8132533339296184e+00,0.5067246246294598e-03,0.8152278612058557e+00,0.5072901459559465e-03,
0.8171584551713140e+00,0.5078429376997978e-03,0.8190465976214947e+00,0.5083834369598832e-03,
0.8208937105586978e+00,0.5089120631160979e-03,0.8227011600888023e+00,0.5094292190426258e-03,
0.8244702601946616e+00,0.5099352922850141e-03,0.8262022764129838e+00,0.5104306562098390e-03,
0.8278984294418413e+00,0.5109156711358289e-03,0.8295598987064962e+00,0.5113906854554846e-03,
0.8311878259120602e+00,0.5118560367565149e-03,0.8327833186126263e+00,0.5123120529527563e-03,
0.8343474538279233e+00,0.5127590534347159e-03,0.8358812817402723e+00,0.5131973502504269e-03,
0.8373858295066677e+00,0.5136272493279681e-03,0.8388621052231878e+00,0.5140490517517616e-03,
0.8403111020816669e+00,0.5144630551056335e-03,0.8417338027616508e+00,0.5148695548966082e-03,
0.8431311841041218e+00,0.5152688460744951e-03,0.8445042221173288e+00,0.5156612246635426e-03,
0.8458538973693004e+00,0.5160469895237514e-03,0.8471812008262565e+00,0.5164264442608728e-03,
0.8484871402011642e+00,0.5167998993056541e-03,0.8497727468820885e+00,0.5171676741845232e-03,
0.8510390835157448e+00,0.5175301000056107e-03,0.8522872523277160e+00,0.5178875221857676e-03,
0.8535184042670900e+00,0.5182403034460151e-03,0.8547337490696901e+00,0.5185888271046153e-03,
0.8559345663404898e+00,0.5189335006986104e-03,0.8571222177620127e+00,0.5192747599661662e-03,
0.8582981605412726e+00,0.5196130732232652e-03,0.8594639622127785e+00,0.5199489461690734e-03,
0.8606213169188581e+00,0.5202829271545004e-03,0.8617720632905069e+00,0.5206156129478312e-03,
0.8629182040514101e+00,0.5209476550295669e-03,0.8640619274638366e+00,0.5212797664454193e-03,
0.8652056307266341e+00,0.5216127292413131e-03,0.8663519454211874e+00,0.5219474024967696e-03,
0.8675037650792340e+00,0.5222847309624981e-03,0.8686642749148173e+00,0.5226257542936992e-03,
0.8698369837189167e+00,0.5229716168515654e-03,0.8710257578565097e+00,0.5233235780207398e-03,
0.8722348572285707e+00,0.5236830229588920e-03,0.8734689729618574e+00,0.5240514736547882e-03,
0.8747332664628638e+00,0.5244306001218837e-03,0.8760334093141517e+00,0.5248222314940908e-03,
0.8773756232962860e+00,0.5252283667175941e-03,0.8787667195815746e+00,0.5256511844461572e-03,
0.8802141358619505e+00,0.5260930516464654e-03,0.8817259698386894e+00,0.5265565303044834e-03,
0.8833110071141399e+00,0.5270443814944088e-03,0.8849787410860012e+00,0.5275595659308863e-03,
0.8867393819581020e+00,0.5281052399771031e-03,0.8886038514594998e+00,0.5286847459332971e-03,
0.8905837593259870e+00,0.5293015952926587e-03,0.8926913570756628e+00,0.5299594435392922e-03,
0.8949394641477838e+00,0.5306620549953031e-03,0.8973413611324083e+00,0.5314132562256762e-03,
0.8999106446760794e+00,0.5322168766096215e-03,0.9026610388027025e+00,0.5330766749183085e-03,
0.9056061579514983e+00,0.5339962511354281e-03,0.9087592181279729e+00,0.1291672658807919e-03,
0.1569411415132314e-03,0.7144429374444041e-02,0.1812286696375032e-03,0.3374884163870904e-01,
0.2024891487895646e-03,0.6836875906346668e-01,0.2211729609091939e-03,0.1057051970576302e+00,
0.2376757078934563e-03,0.1431775337300160e+00,0.2523309440420044e-03,0.1795193851821314e+00,
0.2654155096114621e-03,0.2141350485529856e+00,0.2771580968905830e-03,0.2467819320733997e+00,
0.2877477478365611e-03,0.2774056154477370e+00,0.2973412539386665e-03,0.3060510531385813e+00,
0.3060692727883761e-03,0.3328136064982617e+00,0.3140412687616450e-03,0.3578116754563008e+00,
0.3213494654089220e-03,0.3811713698313008e+00,0.3280719982928522e-03,0.4030180284424702e+00,
0.3342754323013638e-03,0.4234716859228214e+00,0.3400167776073826e-03,0.4426448303068433e+00,
0.3453451109288780e-03,0.4606414878637722e+00,0.3503028857160415e-03,0.4775570675004032e+00,
0.3549269964559184e-03,0.4934786274558236e+00,0.3592496478431822e-03,0.5084853632454120e+00,
0.3632990683734921e-03,0.5226491973781846e+00,0.3671000992804959e-03,0.5360354006553708e+00,
0.3706746830802694e-03,0.5487032048025572e+00,0.3740422708473267e-03,0.5607063844089742e+00,
0.3772201633670793e-03,0.5720937971957492e+00,0.3802237982173855e-03,0.5829098782647339e+00,
0.3830669924186714e-03,0.5931950878770883e+00,0.3857621484003172e-03,0.6029863145180095e+00,
0.3883204295409269e-03,0.6123172361692740e+00,0.3907519103608007e-03,0.6212186432401899e+00,
0.3930657055071256e-03,0.6297187267546153e+00,0.3952700809230814e-03,0.6378433353164356e+00,
0.3973725499905643e-03,0.6456162041780895e+00,0.3993799569511753e-03,0.6530591594781886e+00,
0.4012985495172340e-03,0.6601923004327613e+00,0.4031340422649590e-03,0.6670341619826434e+00,
0.4048916721408514e-03,0.6736018601298540e+00,0.4065762471981460e-03,0.6799112219451942e+00,
0.4081921895038212e-03,0.6859769020007800e+00,0.4097435730108617e-03,0.6918124867754873e+00,
0.4112341570695012e-03,0.6974305883977158e+00,0.4126674161504436e-03,0.7028429289271262e+00,
0.4140465662688992e-03,0.7080604162333366e+00,0.4153745885277149e-03,0.7130932124031323e+00,
0.4166542501385347e-03,0.7179507954967295e+00,0.4178881232298605e-03,0.7226420153762622e+00,
0.4190786017085115e-03,0.7271751442443414e+00,0.4202279164050269e-03,0.7315579224557873e+00,
0.4213381487029441e-03,0.7357976001001488e+00,0.4224112428257702e-03,0.7399009747952365e+00,
0.4234490169331078e-03,0.7438744260815747e+00,0.4244531731582231e-03,0.7477239467635279e+00,
0.4254253067028491e-03,0.7514551715040853e+00,0.4263669140908001e-03,0.7550734029462083e+00,
0.4272794006696848e-03,0.7585836356036648e+00,0.4281640874393643e-03,0.7619905777378660e+00,
0.4290222172765655e-03,0.7652986714139369e+00,0.4298549606170237e-03,0.7685121109086968e+00,
0.4306634206495281e-03,0.7716348596250679e+00,0.4314486380701255e-03,0.7746706656513523e+00,
0.4322115954393903e-03,0.7776230760895890e+00,0.4329532211809737e-03,0.7804954502645794e+00,
0.4336743932555310e-03,0.7832909719139642e+00,0.4343759425404994e-03,0.7860126604497781e+00,
0.4350586559430094e-03,0.7886633813730524e+00,0.4357232792703970e-03,0.7912458559151491e+00,
0.4363705198802944e-03,0.7937626699724827e+00,0.4370010491300795e-03,0.7962162823950203e+00,
0.4376155046435118e-03,0.7986090326833559e+00,0.4382144924106579e-03,0.8009431481441662e+00,
0.4387985887356742e-03,0.8032207505493939e+00,0.4393683420456565e-03,0.8054438623405243e+00,
0.4399242745725549e-03,0.8076144124157677e+00,0.4404668839190812e-03,0.8097342415347859e+00,
0.4409966445185832e-03,0.8118051073727768e+00,0.4415140089980146e-03,0.8138286892532131e+00,
0.4420194094523807e-03,0.8158065925862987e+00,0.4425132586383796e-03,0.8177403530382282e+00,
0.4429959510943727e-03,0.8196314404545940e+00,0.4434678641933102e-03,0.8214812625597571e+00,
0.4439293591347870e-03,0.8232911684526717e+00,0.4443807818820194e-03,0.8250624519185151e+00,
0.4448224640492010e-03,0.8267963545745015e+00,0.4452547237444166e-03,0.8284940688674631e+00,
0.4456778663730607e-03,0.8301567409401316e+00,0.4460921854065215e-03,0.8317854733825585e+00,
0.4464979631207512e-03,0.8333813278847675e+00,0.4468954713092401e-03,0.8349453278065194e+00,
0.4472849719748584e-03,0.8364784606800110e+00,0.4476667180050050e-03,0.8379816806613994e+00,
0.4480409538345297e-03,0.8394559109472592e+00,0.4484079161009533e-03,0.8409020461724398e+00,
0.4487678342966111e-03,0.8423209548062871e+00,0.4491209314224874e-03,0.8437134815648469e+00,
0.4494674246486925e-03,0.8450804498574688e+00,0.4498075259867541e-03,0.8464226642871850e+00,
0.4501414429791688e-03,0.8477409132253626e+00,0.4504693794119635e-03,0.8490359714824147e+00,
0.4507915360563808e-03,0.8503086030978187e+00,0.4511081114462013e-03,0.8515595642743328e+00,
0.4514193026976681e-03,0.8527896064831288e+00,0.4517253063794774e-03,0.8539994797685749e+00,
0.4520263194408489e-03,0.8551899362836138e+00,0.4523225402062811e-03,0.8563617340890786e+00,
0.4526141694462433e-03,0.8575156412528867e+00,0.4529014115337412e-03,0.8586524402878235e+00,
0.4531844756974208e-03,0.8597729329695807e+00,0.4534635773826384e-03,0.8608779455798125e+00,
0.4537389397327130e-03,0.8619683346221994e+00,0.4540107952033793e-03,0.8630449930628203e+00,
0.4542793873242631e-03,0.8641088571494663e+00,0.4545449726219747e-03,0.8651609138678200e+00,
0.4548078227201481e-03,0.8662022090955666e+00,0.4550682266323894e-03,0.8672338565183648e+00,
0.4553264932646083e-03,0.8682570473740338e+00,0.4555829541435220e-03,0.8692730610930814e+00,
0.4558379663881761e-03,0.8702832769045586e+00,0.4560919159410250e-03,0.8712891864758329e+00,
0.4563452210743556e-03,0.8722924076528336e+00,0.4565983361864682e-03,0.8732946993631147e+00,
0.4568517558999058e-03,0.8742979777371169e+00,0.4571060194709263e-03,0.8753043334925269e+00,
0.4573617155151244e-03,0.8763160506117581e+00,0.4576194870483323e-03,0.8773356263222484e+00,
0.4578800368343567e-03,0.8783657923622515e+00,0.4581441330213403e-03,0.8794095374796469e+00,
0.4584126150361641e-03,0.8804701310663527e+00,0.4586863996908342e-03,0.8815511477743261e+00,
0.4589664874357118e-03,0.8826564928888149e+00,0.4592539686711794e-03,0.8837904281482389e+00,
0.4595500300013319e-03,0.8849575975954920e+00,0.4598559602799827e-03,0.8861630529202466e+00,
0.4601731562602071e-03,0.8874122776038270e+00,0.4605031276134677e-03,0.8887112090056589e+00,
0.4608475010329713e-03,0.8900662573321374e+00,0.4612080230785231e-03,0.8914843202051330e+00,
0.4615865613575363e-03,0.8929727913000981e+00,0.4619851035704269e-03,0.8945395612571059e+00,
0.4624057538807515e-03,0.8961930087896581e+00,0.4628507260045860e-03,0.8979419796374420e+00,
0.4633223323547168e-03,0.8997957507473553e+00,0.4638229685297288e-03,0.9017639768452591e+00,
0.4643550924143431e-03,0.9038566164094044e+00,0.4649211971655587e-03,0.9060838340132801e+00,
0.4655237774111018e-03,0.9084558761162183e+00,0.4661652880954744e-03,0.9109829176962647e+00,
0.4668480955879464e-03,0.9136748776971255e+00
};
static const double G_FPA[50*6]={
-0.1493520786726990e+00,-0.1793135931326770e+00,-0.1824281041782890e+00,-0.1777472821566890e+00,
-0.1710972142947840e+00,-0.1644461451102920e+00,-0.1584276551712570e+00,-0.1532930580755720e+00,
-0.1489728043051390e+00,-0.1451799375999820e+00,-0.1418037791621820e+00,-0.1391219435621700e+00,
-0.1366266535398950e+00,-0.1344864475767140e+00,-0.1327806740180830e+00,-0.1311176097994130e+00,
-0.1297379432062220e+00,-0.1285469481416810e+00,-0.1274603771044480e+00,-0.1264964101553420e+00,
-0.1248684161186150e+00,-0.1235644055100460e+00,-0.1225050083292860e+00,-0.1216403294495300e+00,
-0.1209179176914820e+00,-0.1207102483966320e+00,-0.1201519467265420e+00,-0.1196508045129640e+00,
-0.1192316902741090e+00,-0.1186852233116110e+00,-0.1182317962861350e+00,-0.1178601688101320e+00,
-0.1175416324079200e+00,-0.1172807912904900e+00,-0.1170208093442190e+00,-0.1168401101066620e+00,
-0.1169991417760970e+00,-0.1167874742236220e+00,-0.1165430532423190e+00,-0.1163698778481720e+00,
-0.1159818319524770e+00,-0.1159344092398790e+00,-0.1145439308539650e+00,-0.1143381908929590e+00,
-0.1139008067064790e+00,-0.1142412307455590e+00,-0.1138308538185690e+00,-0.1131050393462150e+00,
-0.1133736950719060e+00,-0.1129383700806330e+00,0.6297689629852520e+00,0.5223549788819960e+00,
0.4885819742328390e+00,0.4755988908589700e+00,0.4710213809961390e+00,0.4703153415521330e+00,
0.4714688786200550e+00,0.4732820791770350e+00,0.4752969595445370e+00,0.4776612314911250e+00,
0.4802944722515980e+00,0.4823075693545850e+00,0.4846418963837590e+00,0.4867577236606920e+00,
0.4883219525870490e+00,0.4901936397546130e+00,0.4917003192014090e+00,0.4930113232255140e+00,
0.4942931498843160e+00,0.4954586916599650e+00,0.4974905970514250e+00,0.4991647325203270e+00,
0.5005553839479920e+00,0.5017004023499541e+00,0.5026751194912590e+00,0.5023610655886370e+00,
0.5031874636250060e+00,0.5039688447361130e+00,0.5046103275551980e+00,0.5054793099447960e+00,
0.5062138906717760e+00,0.5068139865594610e+00,0.5073405470922230e+00,0.5077620247303830e+00,
0.5082348536068509e+00,0.5085139319273320e+00,0.5077389653638690e+00,0.5081245100620970e+00,
0.5086490230593580e+00,0.5089506708817790e+00,0.5099429377890550e+00,0.5099326257947260e+00,
0.5140556669692590e+00,0.5145681293297100e+00,0.5158152472787630e+00,0.5146426059308590e+00,
0.5158342546726570e+00,0.5180476290399090e+00,0.5171181563254430e+00,0.5184402127132050e+00,
-0.3552010615736500e+00,-0.2680202632432680e+00,-0.2439990273726730e+00,-0.2365441458575690e+00,
-0.2354323011755290e+00,-0.2370547360246560e+00,-0.2398538024508120e+00,-0.2429108507654060e+00,
-0.2458992601532890e+00,-0.2489884041837590e+00,-0.2521496389853890e+00,-0.2546569892450240e+00,
-0.2573320577128380e+00,-0.2597336248521030e+00,-0.2615887694188010e+00,-0.2636464323392840e+00,
-0.2653379543007470e+00,-0.2668161779223760e+00,-0.2682312713257240e+00,-0.2695132323701080e+00,
-0.2717373911652110e+00,-0.2735656166409580e+00,-0.2750817976791370e+00,-0.2763330076727890e+00,
-0.2773954660551270e+00,-0.2772991804007630e+00,-0.2781734890889460e+00,-0.2789875582513270e+00,
-0.2796620194521100e+00,-0.2805660275359410e+00,-0.2813274993078950e+00,-0.2819517336663530e+00,
-0.2824961648082530e+00,-0.2829361018357800e+00,-0.2834112455448390e+00,-0.2837080618605110e+00,
-0.2830855505978180e+00,-0.2834731799915930e+00,-0.2839755439420500e+00,-0.2842840713728580e+00,
-0.2851928923371940e+00,-0.2852140657258900e+00,-0.2888771286635960e+00,-0.2893544677840580e+00,
-0.2904796216815170e+00,-0.2894647305871690e+00,-0.2905355657696870e+00,-0.2925085423646700e+00,
-0.2917013207455080e+00,-0.2928828692282720e+00,0.1467459963075410e-01,0.4106444598485420e-01,
0.4038444692168970e-01,0.3578733676807390e-01,0.3051651483054030e-01,0.2536363322723870e-01,
0.2057467499520320e-01,0.1637223211039150e-01,0.1272030101911000e-01,0.9307307037980920e-02,
0.6059805487160200e-02,0.3497234793602480e-02,0.9158692938600060e-03,-0.1359889971701570e-02,
-0.3137010493507230e-02,-0.5021347296742260e-02,-0.6576027123550920e-02,-0.7930047717060041e-02,
-0.9207170611721729e-02,-0.1035754427179280e-01,-0.1233942601824490e-01,-0.1395854362589010e-01,
-0.1529517808506620e-01,-0.1639617300008130e-01,-0.1732778076400470e-01,-0.1734595971071780e-01,
-0.1809986641450730e-01,-0.1879545617305730e-01,-0.1937369762418040e-01,-0.2014366072774880e-01,
-0.2079023813305270e-01,-0.2132066922688580e-01,-0.2178148644303090e-01,-0.2215538108711890e-01,
-0.2255113835094120e-01,-0.2280544368009310e-01,-0.2235579280147050e-01,-0.2267863607085630e-01,
-0.2308586097677890e-01,-0.2334484843720840e-01,-0.2406152048888540e-01,-0.2409290366492980e-01,
-0.2691871823780370e-01,-0.2729702536848620e-01,-0.2817062422691550e-01,-0.2740377782967870e-01,
-0.2823307357642430e-01,-0.2975053733467930e-01,-0.2914067435536010e-01,-0.3005023259112470e-01,
-0.5585172816025650e-01,-0.6736926760336411e-01,-0.6211005425631790e-01,-0.5618024054541970e-01,
-0.5087589131071470e-01,-0.4623657598077330e-01,-0.4217443567072490e-01,-0.3871080958616970e-01,
-0.3575088397591370e-01,-0.3303591053715270e-01,-0.3048781903399230e-01,-0.2846362046063060e-01,
-0.2645091293641820e-01,-0.2467650612579360e-01,-0.2327862806959290e-01,-0.2181330331126920e-01,
-0.2059779985761230e-01,-0.1953696130998830e-01,-0.1853860090801560e-01,-0.1763871155278100e-01,
-0.1608688684279590e-01,-0.1481697226560380e-01,-0.1376707775239600e-01,-0.1290071077274690e-01,
-0.1216703084082810e-01,-0.1212681464055340e-01,-0.1153551175180330e-01,-0.1099077745120630e-01,
-0.1053685842424750e-01,-0.9932910241144790e-02,-0.9425538118922369e-02,-0.9008716751590340e-02,
-0.8646701208096399e-02,-0.8352354764916140e-02,-0.8042554499610791e-02,-0.7841574385419110e-02,
-0.8176461817294379e-02,-0.7923704932154010e-02,-0.7607428177378760e-02,-0.7403878360676440e-02,
-0.6851346717360660e-02,-0.6823259058886040e-02,-0.4652615552220270e-02,-0.4358383052216960e-02,
-0.3682869749025040e-02,-0.4270167977917930e-02,-0.3629396028286810e-02,-0.2457037140121970e-02,
-0.2925605758756990e-02,-0.2221883773418450e-02,0.5903129313527060e+00,0.5349742528959650e+00,
0.5108915010549590e+00,0.4985023937801490e+00,0.4915375361213940e+00,0.4873941538084890e+00,
0.4848299130140080e+00,0.4830810342990370e+00,0.4818259817392980e+00,0.4810742581139030e+00,
0.4807176800792510e+00,0.4802675458861510e+00,0.4801547209844000e+00,0.4800845937146730e+00,
0.4798820048995980e+00,0.4799290654386690e+00,0.4798985567824860e+00,0.4798572996333250e+00,
0.4798695286369230e+00,0.4798871744042880e+00,0.4799327246334690e+00,0.4799737476502300e+00,
0.4800094283751710e+00,0.4800316731271570e+00,0.4800541184770960e+00,0.4795965447270200e+00,
0.4796633272384310e+00,0.4797488065938350e+00,0.4798071722546040e+00,0.4799031357866030e+00,
0.4799885589797370e+00,0.4800538917646920e+00,0.4801169522190680e+00,0.4801595816412430e+00,
0.4802409089745760e+00,0.4802587581991550e+00,0.4798390841508660e+00,0.4799050011440180e+00,
0.4800402473887730e+00,0.4800819258157260e+00,0.4804129581099690e+00,0.4803532828614870e+00,
0.4819284104013480e+00,0.4820827315120070e+00,0.4825247451704330e+00,0.4820296964949760e+00,
0.4824598474106510e+00,0.4832857478252780e+00,0.4828999512739870e+00,0.4833868033344080e+00
};
static const double G_FPB[50*4]={
0.9345026254898090e+00,0.7274285067102840e+00,0.6719695680612430e+00,0.6556167002979810e+00,
0.6537666300517569e+00,0.6579584015500800e+00,0.6646448283275040e+00,0.6717789268978830e+00,
0.6786622061219570e+00,0.6857119603107530e+00,0.6928846073633550e+00,0.6985466568914540e+00,
0.7045739217922810e+00,0.7099714289059860e+00,0.7141251786644101e+00,0.7187362745634840e+00,
0.7225173877676850e+00,0.7258163438132740e+00,0.7289740768208630e+00,0.7318323979138250e+00,
0.7367867294848500e+00,0.7408540991302860e+00,0.7442238961954030e+00,0.7470018327004330e+00,
0.7493594319201610e+00,0.7491009983205980e+00,0.7510438732007000e+00,0.7528546243960870e+00,
0.7543531698897820e+00,0.7563630174474990e+00,0.7580559635801321e+00,0.7594430047279750e+00,
0.7606531603270020e+00,0.7616299560102110e+00,0.7626887898876270e+00,0.7633464005548490e+00,
0.7619233048462259e+00,0.7627868067853310e+00,0.7639116443451840e+00,0.7645975622489840e+00,
0.7666427811705000e+00,0.7666825554934120e+00,0.7749554387465130e+00,0.7760273516396849e+00,
0.7785631379747420e+00,0.7762646641662500e+00,0.7786790382145190e+00,0.7831312471383231e+00,
0.7813041044955010e+00,0.7839693236507510e+00,-0.4265564028011350e+00,-0.2818825006107540e+00,
-0.2473270272960300e+00,-0.2388086797400350e+00,-0.2397176596253420e+00,-0.2445045713108740e+00,
-0.2508361314756910e+00,-0.2573410948884940e+00,-0.2635385639905340e+00,-0.2697240272692460e+00,
-0.2758866281733540e+00,-0.2808810062479690e+00,-0.2860454572917290e+00,-0.2906820082219830e+00,
-0.2943496913476160e+00,-0.2982880363588340e+00,-0.3015684622049420e+00,-0.3044481131952810e+00,
-0.3071823205897770e+00,-0.3096594647122250e+00,-0.3139572883286570e+00,-0.3174954261614590e+00,
-0.3204336321934170e+00,-0.3228654196919330e+00,-0.3249307417018970e+00,-0.3249859932393830e+00,
-0.3266615863087740e+00,-0.3282104338310080e+00,-0.3295011397034090e+00,-0.3312227861889010e+00,
-0.3326715068245950e+00,-0.3338623300334220e+00,-0.3348981395703660e+00,-0.3357399502844130e+00,
-0.3366304745893570e+00,-0.3372046800675830e+00,-0.3362061567207790e+00,-0.3369330719076230e+00,
-0.3378486249973970e+00,-0.3384333633676460e+00,-0.3400442760212760e+00,-0.3401182201483530e+00,
-0.3464892970903280e+00,-0.3473480436600420e+00,-0.3493305129881040e+00,-0.3475947355399350e+00,
-0.3494764815796560e+00,-0.3529279330647920e+00,-0.3515415852322330e+00,-0.3536135711961700e+00,
-0.4286126090287230e+00,-0.3668831818114750e+00,-0.3484104226757220e+00,-0.3429180976019180e+00,
-0.3421246253735600e+00,-0.3431250077478220e+00,-0.3447677607156370e+00,-0.3464379367290900e+00,
-0.3479712271803090e+00,-0.3495359077366820e+00,-0.3511319807327740e+00,-0.3522851027138570e+00,
-0.3535639792959680e+00,-0.3546791845474330e+00,-0.3554645105918200e+00,-0.3564015121650520e+00,
-0.3571294786867640e+00,-0.3577467566885700e+00,-0.3583454834914170e+00,-0.3588814561954610e+00,
-0.3597979244326670e+00,-0.3605351216859620e+00,-0.3611355600934820e+00,-0.3616203502296700e+00,
-0.3620281079489340e+00,-0.3617966076621970e+00,-0.3621478169316960e+00,-0.3624824314518120e+00,
-0.3627525093967700e+00,-0.3631198505506140e+00,-0.3634291987701580e+00,-0.3636793247807920e+00,
-0.3638991753653360e+00,-0.3640723764231530e+00,-0.3642747851260920e+00,-0.3643858961337560e+00,
-0.3639786034320880e+00,-0.3641429569051080e+00,-0.3643782490375530e+00,-0.3645034412291430e+00,
-0.3649672519510140e+00,-0.3649469730375360e+00,-0.3669160814110720e+00,-0.3671474111260570e+00,
-0.3677278435198900e+00,-0.3671594511162400e+00,-0.3677159537106400e+00,-0.3687527410912260e+00,
-0.3683067007902800e+00,-0.3689225350230760e+00,0.7443700905748550e+00,0.6843413226281280e+00,
0.6575167224910040e+00,0.6432743120481760e+00,0.6348428944089730e+00,0.6294529940910470e+00,
0.6258042923715540e+00,0.6231137899545890e+00,0.6210406832226280e+00,0.6195664566172731e+00,
0.6185685013414010e+00,0.6175711923990560e+00,0.6169650308081780e+00,0.6164620602891970e+00,
0.6158885727797720e+00,0.6155948962063870e+00,0.6152676478260050e+00,0.6149639619799910e+00,
0.6147393629361090e+00,0.6145449008634321e+00,0.6142281009351160e+00,0.6139737963552410e+00,
0.6137660548980600e+00,0.6135861212526650e+00,0.6134383780390650e+00,0.6128672581446050e+00,
0.6128074536479520e+00,0.6127821003410900e+00,0.6127454035196620e+00,0.6127194665185800e+00,
0.6127039161062630e+00,0.6126854087655630e+00,0.6126773014606109e+00,0.6126601393811660e+00,
0.6126872940138590e+00,0.6126617858469530e+00,0.6122216996047940e+00,0.6122432122389120e+00,
0.6123356670416900e+00,0.6123390408745670e+00,0.6126188831573750e+00,0.6125383178989831e+00,
0.6139855546718750e+00,0.6141090877833700e+00,0.6145020953249900e+00,0.6140231485209950e+00,
0.6144094637846880e+00,0.6151666870434110e+00,0.6147946882668170e+00,0.6152388130232930e+00
};
static const double G_FPBE[50*5]={
0.1135099721105400e+01,0.1004791996747880e+01,0.9849074101676930e+00,0.9801712013037140e+00,
0.9748346957762000e+00,0.9666683533299920e+00,0.9563197477202220e+00,0.9435877870646900e+00,
0.9298684416218070e+00,0.9178789470922341e+00,0.9079210310178130e+00,0.8963884760094000e+00,
0.8876858700105840e+00,0.8794708140622240e+00,0.8705307513625870e+00,0.8640188925968660e+00,
0.8573579242956290e+00,0.8510969612157840e+00,0.8456911634943780e+00,0.8407547833213730e+00,
0.8321297326780310e+00,0.8248413584454320e+00,0.8186607020219420e+00,0.8133431563615230e+00,
0.8088125513346350e+00,0.8020582414848511e+00,0.7990230198852020e+00,0.7965337075227700e+00,
0.7942544158029911e+00,0.7914519740693170e+00,0.7891402969399030e+00,0.7871550367424620e+00,
0.7855094436870730e+00,0.7840382232062020e+00,0.7830103783017101e+00,0.7818332663434200e+00,
0.7781572584456879e+00,0.7773000348732790e+00,0.7769853367639250e+00,0.7761235769088209e+00,
0.7769492825835530e+00,0.7758766102124320e+00,0.7833475896538090e+00,0.7834966566730860e+00,
0.7851781306259540e+00,0.7820452299307989e+00,0.7837924452294470e+00,0.7876642435923270e+00,
0.7852486321054670e+00,0.7874523692081380e+00,-0.5843333609897200e+00,-0.4366446024615370e+00,
-0.4032976250053430e+00,-0.3944378896899790e+00,-0.3923089527990170e+00,-0.3917411446393940e+00,
-0.3911383767369940e+00,-0.3893773005107890e+00,-0.3867505274395900e+00,-0.3846865281195530e+00,
-0.3833545976085360e+00,-0.3805045359138350e+00,-0.3789441974335400e+00,-0.3772450947063440e+00,
-0.3746485890057990e+00,-0.3732809547751270e+00,-0.3714856806562180e+00,-0.3696639884134540e+00,
-0.3681628783900940e+00,-0.3667543744900970e+00,-0.3642152018859080e+00,-0.3619693167595170e+00,
-0.3599977061403660e+00,-0.3582349310764630e+00,-0.3567097375146450e+00,-0.3533051279831490e+00,
-0.3523710682800620e+00,-0.3516592142745250e+00,-0.3509550112347940e+00,-0.3501277237375970e+00,
-0.3494473911050240e+00,-0.3488391072604540e+00,-0.3483477283661120e+00,-0.3478768422278690e+00,
-0.3476482454861290e+00,-0.3472344828787250e+00,-0.3450061040271600e+00,-0.3448067204243090e+00,
-0.3449483103511920e+00,-0.3446967440115250e+00,-0.3456541999167750e+00,-0.3451233090871470e+00,
-0.3510862513397950e+00,-0.3514430517062400e+00,-0.3529641476555290e+00,-0.3507649362860950e+00,
-0.3522859049849060e+00,-0.3554266310679920e+00,-0.3537131525958330e+00,-0.3555348445204640e+00,
-0.3191729111777320e+00,-0.4234439668773780e+00,-0.4850906251060590e+00,-0.5173815829254870e+00,
-0.5302637240700330e+00,-0.5314557767040210e+00,-0.5261426436895430e+00,-0.5168763501922690e+00,
-0.5059356450603800e+00,-0.4955115566831150e+00,-0.4860862763703170e+00,-0.4761318946722180e+00,
-0.4678286536909990e+00,-0.4601021210126900e+00,-0.4524523521645610e+00,-0.4462022557149370e+00,
-0.4402344257757880e+00,-0.4347540909772420e+00,-0.4299054864663390e+00,-0.4255040802824150e+00,
-0.4178686878353290e+00,-0.4115065541010340e+00,-0.4061739100813730e+00,-0.4016577730730810e+00,
-0.3978296665492060e+00,-0.3936658587530070e+00,-0.3909709581565620e+00,-0.3886805776003140e+00,
-0.3866524305471270e+00,-0.3840997513069370e+00,-0.3819867083094510e+00,-0.3802028637203540e+00,
-0.3787038944031930e+00,-0.3774070833441770e+00,-0.3763568767133550e+00,-0.3753702535272940e+00,
-0.3736297166484690e+00,-0.3727647394263960e+00,-0.3721381998886850e+00,-0.3713405820246580e+00,
-0.3710725310431180e+00,-0.3703923563393810e+00,-0.3718609745516120e+00,-0.3715451022524440e+00,
-0.3716159677225760e+00,-0.3705616486269770e+00,-0.3707207092665210e+00,-0.3714087732649800e+00,
-0.3706204399744360e+00,-0.3709620195398110e+00,0.4828535581858760e+00,0.5387706459097170e+00,
0.5763098353506100e+00,0.6011422889089990e+00,0.6165106186327960e+00,0.6254945511947509e+00,
0.6304045544673620e+00,0.6325318615178580e+00,0.6330015929869059e+00,0.6328917561201390e+00,
0.6325686150190030e+00,0.6314918923804360e+00,0.6306923911607780e+00,0.6297780073823640e+00,
0.6285692917380200e+00,0.6277305659466850e+00,0.6267801330513910e+00,0.6258466571240801e+00,
0.6250324253852600e+00,0.6242725208556830e+00,0.6229129720956800e+00,0.6217356480697770e+00,
0.6207206346229550e+00,0.6198359536533060e+00,0.6190763683594490e+00,0.6178801898663340e+00,
0.6173729751246710e+00,0.6169581459878219e+00,0.6165745412340430e+00,0.6161032189454330e+00,
0.6157133432051780e+00,0.6153767080825110e+00,0.6150976815074490e+00,0.6148466559672410e+00,
0.6146747803350340e+00,0.6144721794282550e+00,0.6138049057456830e+00,0.6136612416789360e+00,
0.6136163098023280e+00,0.6134696447129140e+00,0.6136346993069680e+00,0.6134443594095160e+00,
0.6148281319533020e+00,0.6148605640192339e+00,0.6151709696741000e+00,0.6146048109181080e+00,
0.6149264689231070e+00,0.6156289219266960e+00,0.6151954785686620e+00,0.6155944623129920e+00,
0.1092566971109810e+00,0.7953007359749560e-01,0.6091984517359420e-01,0.4767021740695680e-01,
0.3799460192188390e-01,0.3081583340110400e-01,0.2540194674668230e-01,0.2124768735539740e-01,
0.1800923606499970e-01,0.1544586351239230e-01,0.1338572774066430e-01,0.1170780252490120e-01,
0.1032410596594010e-01,0.9170690700212919e-02,0.8200447574498990e-02,0.7375374192499380e-02,
0.6669143786968660e-02,0.6059896960246400e-02,0.5530411652573520e-02,0.5067528465028200e-02,
0.4300802606167550e-02,0.3696211983447280e-02,0.3211038383406490e-02,0.2815778166208280e-02,
0.2489444678161560e-02,0.2218210948594120e-02,0.1987955034932630e-02,0.1791797818602650e-02,
0.1623409054151740e-02,0.1412129256348660e-02,0.1239633361036940e-02,0.1096984835158760e-02,
0.9776444266938310e-03,0.8768150824146960e-03,0.7907877487774020e-03,0.7169008348075660e-03,
0.6339007824090200e-03,0.5641735100003840e-03,0.5053010255475970e-03,0.4439029412099620e-03,
0.3928854249568970e-03,0.3503760110870390e-03,0.3071192012837970e-03,0.2719179033193800e-03,
0.2378918697888850e-03,0.2101700952340330e-03,0.1837668077835510e-03,0.1594988396645800e-03,
0.1399886359439280e-03,0.1220629939427580e-03
};
static const int G_MS[50]={1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,
	22,24,26,28,30,32,34,36,38,41,44,47,50,53,56,59,63,67,71,
     	76,81,86,92,98,105,112,120,129,138,148};
#endif