use crate::common::*;
pub const E0 : [[[R;3];501];3] = [
  [
    [  0.999829287813200E+00,  0.999892109889800E+00,  0.279620763907500E-05], // 1,1,1:3
    [  0.835257956741400E-02, -0.244270089373500E-01,  0.101604219814200E-05], // 1,2,1:3
    [  0.561144533514800E-02,  0.835292974291500E-02,  0.804430503364700E-06], // 1,3,1:3
    [  0.104666429557200E-03,  0.104669730017700E-03,  0.438534790927400E-06], // 1,4,1:3
    [  0.311084253467700E-04,  0.311084187666300E-04,  0.318615641490600E-06], // 1,5,1:3
    [  0.255241350355000E-04,  0.257026909459300E-04,  0.227241228579200E-06], // 1,6,1:3
    [  0.213720784578100E-04,  0.214738962361000E-04,  0.164562010300700E-06], // 1,7,1:3
    [  0.168024018295100E-04,  0.168034438405000E-04,  0.181583692116600E-06], // 1,8,1:3
    [  0.167901237079500E-04,  0.167911731219300E-04,  0.144746167636400E-06], // 1,9,1:3
    [  0.144552694677700E-04,  0.144051206844000E-04,  0.143076087638200E-06], // 1,10,1:3
    [  0.109103824618400E-04,  0.113513966499900E-04,  0.112044575322600E-06], // 1,11,1:3
    [  0.934439973393200E-05,  0.934548257101800E-05,  0.109023284079700E-06], // 1,12,1:3
    [  0.899318291065200E-05,  0.900741871956800E-05,  0.971572734655100E-07], // 1,13,1:3
    [  0.566554603411600E-05,  0.567153671231400E-05,  0.103626713621700E-06], // 1,14,1:3
    [  0.684414670303500E-05,  0.745140186166600E-05,  0.875266527134000E-07], // 1,15,1:3
    [  0.734661090556500E-05,  0.639347005711400E-05,  0.833186495600400E-07], // 1,16,1:3
    [  0.681539647441400E-05,  0.681427588169700E-05,  0.690165867024500E-07], // 1,17,1:3
    [  0.611278725305300E-05,  0.611370562888700E-05,  0.914453684899800E-07], // 1,18,1:3
    [  0.451812071123900E-05,  0.450385136727300E-05,  0.720508503743500E-07], // 1,19,1:3
    [  0.452196343070600E-05,  0.452224914192600E-05,  0.769787465417600E-07], // 1,20,1:3
    [  0.449742676408500E-05,  0.450179430701800E-05,  0.519754573838400E-07], // 1,21,1:3
    [  0.406219056695900E-05,  0.551492748018000E-05,  0.503134537860800E-07], // 1,22,1:3
    [  0.541219348019200E-05,  0.406286279999500E-05,  0.452711020584000E-07], // 1,23,1:3
    [  0.546983904938600E-05,  0.541490042971200E-05,  0.475335579808900E-07], // 1,24,1:3
    [  0.520526408347700E-05,  0.546315398742400E-05,  0.429695197751600E-07], // 1,25,1:3
    [  0.214975993545500E-05,  0.507161185932900E-05,  0.385534156838700E-07], // 1,26,1:3
    [  0.227910961850100E-05,  0.219511209445500E-05,  0.525393097099000E-07], // 1,27,1:3
    [  0.225928293968300E-05,  0.227913923391900E-05,  0.402463049647100E-07], // 1,28,1:3
    [  0.255895027131900E-05,  0.227838610087600E-05,  0.406106979145300E-07], // 1,29,1:3
    [  0.256158144755500E-05,  0.255908800330800E-05,  0.379788380420500E-07], // 1,30,1:3
    [  0.178144111544000E-05,  0.256107928685600E-05,  0.293303322558700E-07], // 1,31,1:3
    [  0.161200587464400E-05,  0.179275579638700E-05,  0.350300093042600E-07], // 1,32,1:3
    [  0.181863066710500E-05,  0.181871565650200E-05,  0.367009621405000E-07], // 1,33,1:3
    [  0.181860137752900E-05,  0.181874492479100E-05,  0.290560943700800E-07], // 1,34,1:3
    [  0.155447592525700E-05,  0.155451879139000E-05,  0.246682782171300E-07], // 1,35,1:3
    [  0.209094802924100E-05,  0.206326573723900E-05,  0.269164729533200E-07], // 1,36,1:3
    [  0.200017634546000E-05,  0.149761352004100E-05,  0.215055466794600E-07], // 1,37,1:3
    [  0.128953591775900E-05,  0.200061794042700E-05,  0.223748192268000E-07], // 1,38,1:3
    [  0.128113530788100E-05,  0.128973119558000E-05,  0.181774103815700E-07], // 1,39,1:3
    [  0.151822900569200E-05,  0.128265799893400E-05,  0.222782076213200E-07], // 1,40,1:3
    [  0.945012857902700E-06,  0.152891596865800E-05,  0.194471377230700E-07], // 1,41,1:3
    [  0.778111949499600E-06,  0.118730409843200E-05,  0.152734052066200E-07], // 1,42,1:3
    [  0.773340775991200E-06,  0.784278292811800E-06,  0.157728257491400E-07], // 1,43,1:3
    [  0.735064431812000E-06,  0.735289228086800E-06,  0.142473882542400E-07], // 1,44,1:3
    [  0.653592882702300E-06,  0.657018936079700E-06,  0.161656312170100E-07], // 1,45,1:3
    [  0.632462418365600E-06,  0.632496759041000E-06,  0.140121039169200E-07], // 1,46,1:3
    [  0.629856530055700E-06,  0.629828987228300E-06,  0.148872697421400E-07], // 1,47,1:3
    [  0.858703708917900E-06,  0.647668646585500E-06,  0.169262644238800E-07], // 1,48,1:3
    [  0.829995449103500E-06,  0.858703465123400E-06,  0.112357158291000E-07], // 1,49,1:3
    [  0.631126350340100E-06,  0.806894878811300E-06,  0.990330860631700E-08], // 1,50,1:3
    [  0.600564674545200E-06,  0.835378601166100E-06,  0.917453318719100E-08], // 1,51,1:3
    [  0.791771510992900E-06,  0.600932453213200E-06,  0.864598563145700E-08], // 1,52,1:3
    [  0.755695809968500E-06,  0.755815855956600E-06, -0.108587649268800E-07], // 1,53,1:3
    [  0.677322824494900E-06,  0.580927950450300E-06,  0.926430907781500E-08], // 1,54,1:3
    [  0.537070857784700E-06,  0.537413195025400E-06,  0.824311698495400E-08], // 1,55,1:3
    [  0.571080426620300E-06,  0.571116050732600E-06,  0.826810211370800E-08], // 1,56,1:3
    [  0.570982458372600E-06,  0.571018317074600E-06,  0.904361398822700E-08], // 1,57,1:3
    [  0.514395089644700E-06,  0.514437359061000E-06,  0.743291203878900E-08], // 1,58,1:3
    [  0.508801060454600E-06,  0.510310892726700E-06,  0.858623372728500E-08], // 1,59,1:3
    [  0.496036908517200E-06,  0.496065469789100E-06,  0.761223006013100E-08], // 1,60,1:3
    [  0.480313789118300E-06,  0.478638568928000E-06,  0.709778775140800E-08], // 1,61,1:3
    [  0.573174776822500E-06,  0.610991126366500E-06,  0.764023704017500E-08], // 1,62,1:3
    [  0.473594796057900E-06,  0.483989894402400E-06,  0.707044568808100E-08], // 1,63,1:3
    [  0.480834879662500E-06,  0.473482262391900E-06,  0.769077095770200E-08], // 1,64,1:3
    [  0.411507374313700E-06,  0.483474147329000E-06,  0.805129254259400E-08], // 1,65,1:3
    [  0.523057588928700E-06,  0.513485858115600E-06,  0.590270910451500E-08], // 1,66,1:3
    [  0.513397788921500E-06,  0.506400426497800E-06,  0.513456749646200E-08], // 1,67,1:3
    [  0.506581582532700E-06,  0.375347677276100E-06,  0.552580204610200E-08], // 1,68,1:3
    [  0.433983159386800E-06,  0.493526401428300E-06,  0.588072478422100E-08], // 1,69,1:3
    [  0.395292863895300E-06,  0.395092960089700E-06,  0.521169908137000E-08], // 1,70,1:3
    [  0.489849811194200E-06,  0.489584978977700E-06,  0.489184957356200E-08], // 1,71,1:3
    [  0.475749020932800E-06,  0.421524168888600E-06,  0.515024606999700E-08], // 1,72,1:3
    [  0.472770166974900E-06,  0.379677373113200E-06,  0.510243431963300E-08], // 1,73,1:3
    [  0.380096668186300E-06,  0.311417814251500E-06,  0.508340525425200E-08], // 1,74,1:3
    [  0.325730107793900E-06,  0.326066422083800E-06,  0.420656258568200E-08], // 1,75,1:3
    [  0.325581052867400E-06,  0.397699612300800E-06,  0.466324968357900E-08], // 1,76,1:3
    [  0.325202974818700E-06,  0.280145967292400E-06,  0.409947441653000E-08], // 1,77,1:3
    [  0.325550563530800E-06,  0.363893186886100E-06,  0.462825122076700E-08], // 1,78,1:3
    [  0.280134521199000E-06,  0.248701326947600E-06,  0.502406872814200E-08], // 1,79,1:3
    [  0.368898774097000E-06,  0.303416548199400E-06,  0.512023432775800E-08], // 1,80,1:3
    [  0.247515342945800E-06,  0.267627882558600E-06,  0.552402981528000E-08], // 1,81,1:3
    [  0.303345774915000E-06,  0.276490381891800E-06,  0.475741571886000E-08], // 1,82,1:3
    [  0.218674376311000E-06,  0.248514993050700E-06,  0.391578613112700E-08], // 1,83,1:3
    [  0.276477703277400E-06,  0.219930554094100E-06,  0.486905314999100E-08], // 1,84,1:3
    [  0.219902876859200E-06,  0.257110650043500E-06,  0.364936570372900E-08], // 1,85,1:3
    [  0.204648282476000E-06,  0.204975181715800E-06,  0.399249394900200E-08], // 1,86,1:3
    [  0.261120914750700E-06,  0.259970729629700E-06,  0.332024747741800E-08], // 1,87,1:3
    [  0.228607965681800E-06,  0.178501807221700E-06,  0.328712373969600E-08], // 1,88,1:3
    [  0.185507120258700E-06,  0.232483389111500E-06,  0.347277681110300E-08], // 1,89,1:3
    [  0.232466950678400E-06,  0.170971111954500E-06,  0.342325329476700E-08], // 1,90,1:3
    [  0.170952801568800E-06,  0.210715935171600E-06,  0.389617389824400E-08], // 1,91,1:3
    [  0.216815687582800E-06,  0.175033308029500E-06,  0.338845533792400E-08], // 1,92,1:3
    [  0.210667555653500E-06,  0.200059821033900E-06,  0.306270471652300E-08], // 1,93,1:3
    [  0.143021383046500E-06,  0.138092024868100E-06,  0.327007560040000E-08], // 1,94,1:3
    [  0.138839690194400E-06,  0.141246047029900E-06,  0.310120921525900E-08], // 1,95,1:3
    [  0.192225884419000E-06,  0.188845980300100E-06,  0.278088334731100E-08], // 1,96,1:3
    [  0.188846005829200E-06,  0.178837054258500E-06,  0.290360593182400E-08], // 1,97,1:3
    [  0.178944938610700E-06,  0.136089329616700E-06,  0.268201474311900E-08], // 1,98,1:3
    [  0.136080368537400E-06,  0.150684653016000E-06,  0.253436010849200E-08], // 1,99,1:3
    [  0.150403801470900E-06,  0.180091337617600E-06,  0.239256488250900E-08], // 1,100,1:3
    [  0.138276953338900E-06,  0.143626139064900E-06,  0.265666725485600E-08], // 1,101,1:3
    [  0.143805976907900E-06,  0.122022711415100E-06,  0.233124209677300E-08], // 1,102,1:3
    [  0.132630326003700E-06,  0.133788360359200E-06,  0.228789836366800E-08], // 1,103,1:3
    [  0.115924495054000E-06,  0.115932665073800E-06,  0.233694452130600E-08], // 1,104,1:3
    [  0.143311814913600E-06,  0.135285312856900E-06,  0.315663223626900E-08], // 1,105,1:3
    [  0.123462314859400E-06,  0.143340829608300E-06,  0.298261240276600E-08], // 1,106,1:3
    [  0.123394987534400E-06,  0.123470166651800E-06,  0.277403167480700E-08], // 1,107,1:3
    [  0.992719606129900E-07,  0.123402719200700E-06,  0.229523654863800E-08], // 1,108,1:3
    [  0.124230219131600E-06,  0.124402409179700E-06,  0.219071469987300E-08], // 1,109,1:3
    [  0.109840219520100E-06,  0.109793494551600E-06,  0.219149584504500E-08], // 1,110,1:3
    [  0.115819139531500E-06,  0.125461132985600E-06,  0.249290162838600E-08], // 1,111,1:3
    [  0.904847559624100E-07,  0.115824728678400E-06,  0.199377806431900E-08], // 1,112,1:3
    [  0.888985326902300E-07,  0.903907825296000E-07,  0.189814647902200E-08], // 1,113,1:3
    [  0.104869424216400E-06,  0.910802497883600E-07,  0.191828012763400E-08], // 1,114,1:3
    [  0.111230837864600E-06,  0.888706810843600E-07,  0.191635106160700E-08], // 1,115,1:3
    [  0.863172970990100E-07,  0.863237403543800E-07,  0.183472018146600E-08], // 1,116,1:3
    [  0.852781695166400E-07,  0.789318699296700E-07,  0.124920152380600E-08], // 1,117,1:3
    [  0.789213945699100E-07,  0.829765020117200E-07,  0.147730405053900E-08], // 1,118,1:3
    [  0.105178290523600E-06,  0.101975957898800E-06,  0.126431643124900E-08], // 1,119,1:3
    [  0.104821994316400E-06,  0.101003769623600E-06,  0.120352649503900E-08], // 1,120,1:3
    [  0.743576077514300E-07,  0.104772754826600E-06,  0.922168105983100E-09], // 1,121,1:3
    [  0.986957410694900E-07,  0.735199388108600E-07,  0.784927836764600E-09], // 1,122,1:3
    [  0.915688636422600E-07,  0.986877109234100E-07,  0.798339207738700E-09], // 1,123,1:3
    [  0.700683435618800E-07,  0.700732195939000E-07,  0.792539543165400E-09], // 1,124,1:3
    [  0.980617018260100E-07,  0.686141167970900E-07,  0.764047328588600E-09], // 1,125,1:3
    [  0.905228967360700E-07,  0.755451980961400E-07,  0.539893775448200E-09], // 1,126,1:3
    [  0.755420086789300E-07,  0.954188044833500E-07,  0.562624755019300E-09], // 1,127,1:3
    [  0.821574128649800E-07,  0.718560672215500E-07,  0.552519719785500E-09], // 1,128,1:3
    [  0.718517857539700E-07,  0.713136087171000E-07,  0.540762983789800E-09], // 1,129,1:3
    [  0.713072647618000E-07,  0.665114202103900E-07,  0.385673911980100E-09], // 1,130,1:3
    [  0.665089446116200E-07,  0.853861821366700E-07,  0.385642523998700E-09], // 1,131,1:3
    [  0.739688882368800E-07,  0.863495428804400E-07,  0.435086775598300E-09], // 1,132,1:3
    [  0.742058888477500E-07,  0.744941505148400E-07,  0.384411392499600E-09], // 1,133,1:3
    [  0.614118164290800E-07,  0.742104759916900E-07,  0.285486915543100E-09], // 1,134,1:3
    [  0.637355792405800E-07,  0.614069435442400E-07,  0.171922767141600E-09], // 1,135,1:3
    [  0.635947432926100E-07,  0.635352514303300E-07,  0.152784687975500E-09], // 1,136,1:3
    [  0.574017358264600E-07,  0.622196401344700E-07,  0.112822926484700E-09], // 1,137,1:3
    [  0.701986408460200E-07,  0.585248025724400E-07,  0.000000000000000E+00], // 1,138,1:3
    [  0.639805448704200E-07,  0.639863749891100E-07,  0.000000000000000E+00], // 1,139,1:3
    [  0.779709265049800E-07,  0.703974406987800E-07,  0.000000000000000E+00], // 1,140,1:3
    [  0.646676000090000E-07,  0.697799769438200E-07,  0.000000000000000E+00], // 1,141,1:3
    [  0.752941704389000E-07,  0.746062955839600E-07,  0.000000000000000E+00], // 1,142,1:3
    [  0.692457114089200E-07,  0.537657753610100E-07,  0.000000000000000E+00], // 1,143,1:3
    [  0.622079865022200E-07,  0.753060789355600E-07,  0.000000000000000E+00], // 1,144,1:3
    [  0.587020939185300E-07,  0.682292897160500E-07,  0.000000000000000E+00], // 1,145,1:3
    [  0.626395347388800E-07,  0.622077238009400E-07,  0.000000000000000E+00], // 1,146,1:3
    [  0.625778139001200E-07,  0.658695079904300E-07,  0.000000000000000E+00], // 1,147,1:3
    [  0.569730494512300E-07,  0.587380056577100E-07,  0.000000000000000E+00], // 1,148,1:3
    [  0.633543874679100E-07,  0.626434692974500E-07,  0.000000000000000E+00], // 1,149,1:3
    [  0.637725844115200E-07,  0.625792911566900E-07,  0.000000000000000E+00], // 1,150,1:3
    [  0.648484181816500E-07,  0.534353603340900E-07,  0.000000000000000E+00], // 1,151,1:3
    [  0.473555148525000E-07,  0.558784978171400E-07,  0.000000000000000E+00], // 1,152,1:3
    [  0.462859599617000E-07,  0.690510084560300E-07,  0.000000000000000E+00], // 1,153,1:3
    [  0.625815233693300E-07,  0.617895706664900E-07,  0.000000000000000E+00], // 1,154,1:3
    [  0.619617136659400E-07,  0.618727022433100E-07,  0.000000000000000E+00], // 1,155,1:3
    [  0.615955695212600E-07,  0.538566429142600E-07,  0.000000000000000E+00], // 1,156,1:3
    [  0.498774117239400E-07,  0.632936391792600E-07,  0.000000000000000E+00], // 1,157,1:3
    [  0.545928070314200E-07,  0.454601876160400E-07,  0.000000000000000E+00], // 1,158,1:3
    [  0.486346118999900E-07,  0.619609104937500E-07,  0.000000000000000E+00], // 1,159,1:3
    [  0.534991209315800E-07,  0.615955510821800E-07,  0.000000000000000E+00], // 1,160,1:3
    [  0.567372560780600E-07,  0.499534053931700E-07,  0.000000000000000E+00], // 1,161,1:3
    [  0.474548506051200E-07,  0.545703124357200E-07,  0.000000000000000E+00], // 1,162,1:3
    [  0.474537900532600E-07,  0.486346141839700E-07,  0.000000000000000E+00], // 1,163,1:3
    [  0.404900279632100E-07,  0.534294762687000E-07,  0.000000000000000E+00], // 1,164,1:3
    [  0.424708401451500E-07,  0.567429664843900E-07,  0.000000000000000E+00], // 1,165,1:3
    [  0.402691236305500E-07,  0.474578312016100E-07,  0.000000000000000E+00], // 1,166,1:3
    [  0.406293501177400E-07,  0.474567696119800E-07,  0.000000000000000E+00], // 1,167,1:3
    [  0.534777104850900E-07,  0.404979686997300E-07,  0.000000000000000E+00], // 1,168,1:3
    [  0.482949413650500E-07,  0.424833359694000E-07,  0.000000000000000E+00], // 1,169,1:3
    [  0.434255440459900E-07,  0.402717807020500E-07,  0.000000000000000E+00], // 1,170,1:3
    [  0.402159918436100E-07,  0.406654394347600E-07,  0.000000000000000E+00], // 1,171,1:3
    [  0.410490047455800E-07,  0.485886378788000E-07,  0.000000000000000E+00], // 1,172,1:3
    [  0.437653290513100E-07,  0.527739826353000E-07,  0.000000000000000E+00], // 1,173,1:3
    [  0.331459048065000E-07,  0.410563565655900E-07,  0.000000000000000E+00], // 1,174,1:3
    [  0.323242183964300E-07,  0.437678192577200E-07,  0.000000000000000E+00], // 1,175,1:3
    [  0.354117631887600E-07,  0.323582789469300E-07,  0.000000000000000E+00], // 1,176,1:3
    [  0.368983124268100E-07,  0.307324474030800E-07,  0.000000000000000E+00], // 1,177,1:3
    [  0.389060537677400E-07,  0.308860927137300E-07,  0.000000000000000E+00], // 1,178,1:3
    [  0.303855933978000E-07,  0.339302227983600E-07,  0.000000000000000E+00], // 1,179,1:3
    [  0.313708396978200E-07,  0.303868650880200E-07,  0.000000000000000E+00], // 1,180,1:3
    [  0.402400408185400E-07,  0.401967775249700E-07,  0.000000000000000E+00], // 1,181,1:3
    [  0.330023487928300E-07,  0.328883499823200E-07,  0.000000000000000E+00], // 1,182,1:3
    [  0.363539915557500E-07,  0.388997379463100E-07,  0.000000000000000E+00], // 1,183,1:3
    [  0.303266869135600E-07,  0.305043898714100E-07,  0.000000000000000E+00], // 1,184,1:3
    [  0.280965206905800E-07,  0.360114256463800E-07,  0.000000000000000E+00], // 1,185,1:3
    [  0.369695538382300E-07,  0.368901555714100E-07,  0.000000000000000E+00], // 1,186,1:3
    [  0.356289414250300E-07,  0.356347189356500E-07,  0.000000000000000E+00], // 1,187,1:3
    [  0.351059852414800E-07,  0.277618317066700E-07,  0.000000000000000E+00], // 1,188,1:3
    [  0.361773614295300E-07,  0.292235053034100E-07,  0.000000000000000E+00], // 1,189,1:3
    [  0.262452491073000E-07,  0.351107691730200E-07,  0.000000000000000E+00], // 1,190,1:3
    [  0.253582420449000E-07,  0.361935100763200E-07,  0.000000000000000E+00], // 1,191,1:3
    [  0.351978722625700E-07,  0.256125471109800E-07,  0.000000000000000E+00], // 1,192,1:3
    [  0.257840670998200E-07,  0.262690394292000E-07,  0.000000000000000E+00], // 1,193,1:3
    [  0.342388798147300E-07,  0.255018739708300E-07,  0.000000000000000E+00], // 1,194,1:3
    [  0.277608388646700E-07,  0.253587352613800E-07,  0.000000000000000E+00], // 1,195,1:3
    [  0.337959281837900E-07,  0.351978615384700E-07,  0.000000000000000E+00], // 1,196,1:3
    [  0.305025542628400E-07,  0.342465149287300E-07,  0.000000000000000E+00], // 1,197,1:3
    [  0.265237835023600E-07,  0.237267663086100E-07,  0.000000000000000E+00], // 1,198,1:3
    [  0.237449817376800E-07,  0.271098077954100E-07,  0.000000000000000E+00], // 1,199,1:3
    [  0.271645125514000E-07,  0.303871088970400E-07,  0.000000000000000E+00], // 1,200,1:3
    [  0.303858369922900E-07,  0.222036413058500E-07,  0.000000000000000E+00], // 1,201,1:3
    [  0.222068122876000E-07,  0.302588082546000E-07,  0.000000000000000E+00], // 1,202,1:3
    [  0.304415654091200E-07,  0.278449348686400E-07,  0.000000000000000E+00], // 1,203,1:3
    [  0.273185992356100E-07,  0.229441414243800E-07,  0.000000000000000E+00], // 1,204,1:3
    [  0.228560301817100E-07,  0.201272329472400E-07,  0.000000000000000E+00], // 1,205,1:3
    [  0.202500645455500E-07,  0.203635783195800E-07,  0.000000000000000E+00], // 1,206,1:3
    [  0.201259751980400E-07,  0.200347482328800E-07,  0.000000000000000E+00], // 1,207,1:3
    [  0.200340696225800E-07,  0.220714490010900E-07,  0.000000000000000E+00], // 1,208,1:3
    [  0.220786344137100E-07,  0.248166490513500E-07,  0.000000000000000E+00], // 1,209,1:3
    [  0.248137430562400E-07,  0.267494918229500E-07,  0.000000000000000E+00], // 1,210,1:3
    [  0.213092328887000E-07,  0.245055472032200E-07,  0.000000000000000E+00], // 1,211,1:3
    [  0.244637054339100E-07,  0.260197598645700E-07,  0.000000000000000E+00], // 1,212,1:3
    [  0.193249275905200E-07,  0.219986002284800E-07,  0.000000000000000E+00], // 1,213,1:3
    [  0.260012256804900E-07,  0.244812117231600E-07,  0.000000000000000E+00], // 1,214,1:3
    [  0.243175404748800E-07,  0.187601486404900E-07,  0.000000000000000E+00], // 1,215,1:3
    [  0.187590286920900E-07,  0.187451321939600E-07,  0.000000000000000E+00], // 1,216,1:3
    [  0.187438113942600E-07,  0.215638084255900E-07,  0.000000000000000E+00], // 1,217,1:3
    [  0.215669604717300E-07,  0.198169124006100E-07,  0.000000000000000E+00], // 1,218,1:3
    [  0.196507618248400E-07,  0.232999264853900E-07,  0.000000000000000E+00], // 1,219,1:3
    [  0.233481637235900E-07,  0.176518413530200E-07,  0.000000000000000E+00], // 1,220,1:3
    [  0.186993740880200E-07,  0.243636836608500E-07,  0.000000000000000E+00], // 1,221,1:3
    [  0.243623646088300E-07,  0.216408920388900E-07,  0.000000000000000E+00], // 1,222,1:3
    [  0.176136521661100E-07,  0.184775503422100E-07,  0.000000000000000E+00], // 1,223,1:3
    [  0.215628948050300E-07,  0.167479876996600E-07,  0.000000000000000E+00], // 1,224,1:3
    [  0.216474897925500E-07,  0.222254212435600E-07,  0.000000000000000E+00], // 1,225,1:3
    [  0.222228667085300E-07,  0.207107450592500E-07,  0.000000000000000E+00], // 1,226,1:3
    [  0.207090141492900E-07,  0.160822447183500E-07,  0.000000000000000E+00], // 1,227,1:3
    [  0.179274517702000E-07,  0.185758343907100E-07,  0.000000000000000E+00], // 1,228,1:3
    [  0.184180206844500E-07,  0.179301883615900E-07,  0.000000000000000E+00], // 1,229,1:3
    [  0.157840163171800E-07,  0.157539122169200E-07,  0.000000000000000E+00], // 1,230,1:3
    [  0.156169015253100E-07,  0.184013200955700E-07,  0.000000000000000E+00], // 1,231,1:3
    [  0.155859104546300E-07,  0.176091728828100E-07,  0.000000000000000E+00], // 1,232,1:3
    [  0.173735646957600E-07,  0.156177951851600E-07,  0.000000000000000E+00], // 1,233,1:3
    [  0.143475561999100E-07,  0.155868788520500E-07,  0.000000000000000E+00], // 1,234,1:3
    [  0.148218780665400E-07,  0.195135938257900E-07,  0.000000000000000E+00], // 1,235,1:3
    [  0.142481282708900E-07,  0.156914427561400E-07,  0.000000000000000E+00], // 1,236,1:3
    [  0.138028244862300E-07,  0.147913038946200E-07,  0.000000000000000E+00], // 1,237,1:3
    [  0.181148124456600E-07,  0.146782851076400E-07,  0.000000000000000E+00], // 1,238,1:3
    [  0.150444618569600E-07,  0.162762733744000E-07,  0.000000000000000E+00], // 1,239,1:3
    [  0.174077615413700E-07,  0.150349847975800E-07,  0.000000000000000E+00], // 1,240,1:3
    [  0.137433953625100E-07,  0.129796770823700E-07,  0.000000000000000E+00], // 1,241,1:3
    [  0.176137747770400E-07,  0.137441689663400E-07,  0.000000000000000E+00], // 1,242,1:3
    [  0.153513822579500E-07,  0.178381232521900E-07,  0.000000000000000E+00], // 1,243,1:3
    [  0.178814054367600E-07,  0.152588422875600E-07,  0.000000000000000E+00], // 1,244,1:3
    [  0.137500280799600E-07,  0.145106739676300E-07,  0.000000000000000E+00], // 1,245,1:3
    [  0.124211575863200E-07,  0.129771311195000E-07,  0.000000000000000E+00], // 1,246,1:3
    [  0.145097733393800E-07,  0.146278401282000E-07,  0.000000000000000E+00], // 1,247,1:3
    [  0.129757957502300E-07,  0.138418598000700E-07,  0.000000000000000E+00], // 1,248,1:3
    [  0.146266793482100E-07,  0.122149759980100E-07,  0.000000000000000E+00], // 1,249,1:3
    [  0.138177437479900E-07,  0.156057452589600E-07,  0.000000000000000E+00], // 1,250,1:3
    [  0.168233316930700E-07,  0.154459837203600E-07,  0.000000000000000E+00], // 1,251,1:3
    [  0.119081291883700E-07,  0.153167892869600E-07,  0.000000000000000E+00], // 1,252,1:3
    [  0.122143476210600E-07,  0.134932150379500E-07,  0.000000000000000E+00], // 1,253,1:3
    [  0.154993464486000E-07,  0.125203029091700E-07,  0.000000000000000E+00], // 1,254,1:3
    [  0.125213895305000E-07,  0.145924381668700E-07,  0.000000000000000E+00], // 1,255,1:3
    [  0.123707890538700E-07,  0.122610362526200E-07,  0.000000000000000E+00], // 1,256,1:3
    [  0.144695338961500E-07,  0.101944964150400E-07,  0.000000000000000E+00], // 1,257,1:3
    [  0.138844645717000E-07,  0.138078943360700E-07,  0.000000000000000E+00], // 1,258,1:3
    [  0.101933917922800E-07,  0.101945342165800E-07,  0.000000000000000E+00], // 1,259,1:3
    [  0.125888081534300E-07,  0.129792943440500E-07,  0.000000000000000E+00], // 1,260,1:3
    [  0.129776823826100E-07,  0.991267778609700E-08,  0.000000000000000E+00], // 1,261,1:3
    [  0.991350571809400E-08,  0.982938609859900E-08,  0.000000000000000E+00], // 1,262,1:3
    [  0.983045315596900E-08,  0.122680774610400E-07,  0.000000000000000E+00], // 1,263,1:3
    [  0.119261586530900E-07,  0.119269175599700E-07,  0.000000000000000E+00], // 1,264,1:3
    [  0.983587479827700E-08,  0.983649922708100E-08,  0.000000000000000E+00], // 1,265,1:3
    [  0.963908756927700E-08,  0.964286256428500E-08,  0.000000000000000E+00], // 1,266,1:3
    [  0.117571610700100E-07,  0.116518440486200E-07,  0.000000000000000E+00], // 1,267,1:3
    [  0.101892650867800E-07,  0.117579441881800E-07,  0.000000000000000E+00], // 1,268,1:3
    [  0.950008786922500E-08,  0.101894863560100E-07,  0.000000000000000E+00], // 1,269,1:3
    [  0.966419291657500E-08,  0.950038360667600E-08,  0.000000000000000E+00], // 1,270,1:3
    [  0.961285871220300E-08,  0.122751220290600E-07,  0.000000000000000E+00], // 1,271,1:3
    [  0.111764567541300E-07,  0.966479200999300E-08,  0.000000000000000E+00], // 1,272,1:3
    [  0.115886405216000E-07,  0.961328566633100E-08,  0.000000000000000E+00], // 1,273,1:3
    [  0.902104346702800E-08,  0.111790673621100E-07,  0.000000000000000E+00], // 1,274,1:3
    [  0.883613477356300E-08,  0.961137864078200E-08,  0.000000000000000E+00], // 1,275,1:3
    [  0.104587220069100E-07,  0.884535485237000E-08,  0.000000000000000E+00], // 1,276,1:3
    [  0.121146348779800E-07,  0.105404696660000E-07,  0.000000000000000E+00], // 1,277,1:3
    [  0.854199080409400E-08,  0.121553912448300E-07,  0.000000000000000E+00], // 1,278,1:3
    [  0.103872070363600E-07,  0.993246095520900E-08,  0.000000000000000E+00], // 1,279,1:3
    [  0.112672235144500E-07,  0.878580471504300E-08,  0.000000000000000E+00], // 1,280,1:3
    [  0.869737385963100E-08,  0.853808409756200E-08,  0.000000000000000E+00], // 1,281,1:3
    [  0.886938002844100E-08,  0.864899436952900E-08,  0.000000000000000E+00], // 1,282,1:3
    [  0.924701469325800E-08,  0.103906321906700E-07,  0.000000000000000E+00], // 1,283,1:3
    [  0.920506293095000E-08,  0.886798392643900E-08,  0.000000000000000E+00], // 1,284,1:3
    [  0.800074503804900E-08,  0.832749595524400E-08,  0.000000000000000E+00], // 1,285,1:3
    [  0.916897365081900E-08,  0.924308835613300E-08,  0.000000000000000E+00], // 1,286,1:3
    [  0.107544494923800E-07,  0.920565735783500E-08,  0.000000000000000E+00], // 1,287,1:3
    [  0.781729852581700E-08,  0.103326971460600E-07,  0.000000000000000E+00], // 1,288,1:3
    [  0.954146922635600E-08,  0.800170627555200E-08,  0.000000000000000E+00], // 1,289,1:3
    [  0.982191012202700E-08,  0.917185825419100E-08,  0.000000000000000E+00], // 1,290,1:3
    [  0.989782202377700E-08,  0.107532715024200E-07,  0.000000000000000E+00], // 1,291,1:3
    [  0.773728928376500E-08,  0.988486668982800E-08,  0.000000000000000E+00], // 1,292,1:3
    [  0.926020403471000E-08,  0.954183557667700E-08,  0.000000000000000E+00], // 1,293,1:3
    [  0.732025288848600E-08,  0.773990337623700E-08,  0.000000000000000E+00], // 1,294,1:3
    [  0.731978578094600E-08,  0.731196268410600E-08,  0.000000000000000E+00], // 1,295,1:3
    [  0.714721993377800E-08,  0.972490486962400E-08,  0.000000000000000E+00], // 1,296,1:3
    [  0.794650282987800E-08,  0.925162898361200E-08,  0.000000000000000E+00], // 1,297,1:3
    [  0.900171180893200E-08,  0.732076378784200E-08,  0.000000000000000E+00], // 1,298,1:3
    [  0.899404150725700E-08,  0.732029665096200E-08,  0.000000000000000E+00], // 1,299,1:3
    [  0.829858278735800E-08,  0.794703227103900E-08,  0.000000000000000E+00], // 1,300,1:3
    [  0.852659652071000E-08,  0.900527705311500E-08,  0.000000000000000E+00], // 1,301,1:3
    [  0.820982210319700E-08,  0.899560165204800E-08,  0.000000000000000E+00], // 1,302,1:3
    [  0.635704986109400E-08,  0.828804056879600E-08,  0.000000000000000E+00], // 1,303,1:3
    [  0.737047317904900E-08,  0.635938134725500E-08,  0.000000000000000E+00], // 1,304,1:3
    [  0.723215466472600E-08,  0.869957222862600E-08,  0.000000000000000E+00], // 1,305,1:3
    [  0.632876549490300E-08,  0.645679754273600E-08,  0.000000000000000E+00], // 1,306,1:3
    [  0.803006490859500E-08,  0.742457347545200E-08,  0.000000000000000E+00], // 1,307,1:3
    [  0.627546425923200E-08,  0.723567119616800E-08,  0.000000000000000E+00], // 1,308,1:3
    [  0.705189744632500E-08,  0.810401518273300E-08,  0.000000000000000E+00], // 1,309,1:3
    [  0.616159370542800E-08,  0.809857653593700E-08,  0.000000000000000E+00], // 1,310,1:3
    [  0.775468395727800E-08,  0.627529234662500E-08,  0.000000000000000E+00], // 1,311,1:3
    [  0.588992899070100E-08,  0.605243298911200E-08,  0.000000000000000E+00], // 1,312,1:3
    [  0.570575604707500E-08,  0.570565153581700E-08,  0.000000000000000E+00], // 1,313,1:3
    [  0.596417880833200E-08,  0.578965011513800E-08,  0.000000000000000E+00], // 1,314,1:3
    [  0.671244602746700E-08,  0.551213215337700E-08,  0.000000000000000E+00], // 1,315,1:3
    [  0.594180927546400E-08,  0.738889081910200E-08,  0.000000000000000E+00], // 1,316,1:3
    [  0.546699362739500E-08,  0.546759399179800E-08,  0.000000000000000E+00], // 1,317,1:3
    [  0.634051209098000E-08,  0.638851980299900E-08,  0.000000000000000E+00], // 1,318,1:3
    [  0.632550571004500E-08,  0.610677714994400E-08,  0.000000000000000E+00], // 1,319,1:3
    [  0.616478950968500E-08,  0.738342027548900E-08,  0.000000000000000E+00], // 1,320,1:3
    [  0.526333081243000E-08,  0.550520814173800E-08,  0.000000000000000E+00], // 1,321,1:3
    [  0.559708778022100E-08,  0.631075746287700E-08,  0.000000000000000E+00], // 1,322,1:3
    [  0.539655623681700E-08,  0.616690492969100E-08,  0.000000000000000E+00], // 1,323,1:3
    [  0.539661514822300E-08,  0.526344204275400E-08,  0.000000000000000E+00], // 1,324,1:3
    [  0.709183244334100E-08,  0.559182808262900E-08,  0.000000000000000E+00], // 1,325,1:3
    [  0.657235258978200E-08,  0.539705168049700E-08,  0.000000000000000E+00], // 1,326,1:3
    [  0.596023606079500E-08,  0.539699274515900E-08,  0.000000000000000E+00], // 1,327,1:3
    [  0.512548004351100E-08,  0.657291300072600E-08,  0.000000000000000E+00], // 1,328,1:3
    [  0.592824186641000E-08,  0.512342186641300E-08,  0.000000000000000E+00], // 1,329,1:3
    [  0.524960035742400E-08,  0.593049572599900E-08,  0.000000000000000E+00], // 1,330,1:3
    [  0.605917127608700E-08,  0.643179740393300E-08,  0.000000000000000E+00], // 1,331,1:3
    [  0.529523508166200E-08,  0.500318220760400E-08,  0.000000000000000E+00], // 1,332,1:3
    [  0.582056187593300E-08,  0.558773103250400E-08,  0.000000000000000E+00], // 1,333,1:3
    [  0.475469660644000E-08,  0.593526340781600E-08,  0.000000000000000E+00], // 1,334,1:3
    [  0.638505354895500E-08,  0.475601982776000E-08,  0.000000000000000E+00], // 1,335,1:3
    [  0.658982827394100E-08,  0.659995117263700E-08,  0.000000000000000E+00], // 1,336,1:3
    [  0.538337656718900E-08,  0.590260686846400E-08,  0.000000000000000E+00], // 1,337,1:3
    [  0.592894168353800E-08,  0.592114780903100E-08,  0.000000000000000E+00], // 1,338,1:3
    [  0.481606070979400E-08,  0.550538258126600E-08,  0.000000000000000E+00], // 1,339,1:3
    [  0.600338158651200E-08,  0.535377107186200E-08,  0.000000000000000E+00], // 1,340,1:3
    [  0.550422539310500E-08,  0.506328221094600E-08,  0.000000000000000E+00], // 1,341,1:3
    [  0.535377262012900E-08,  0.592612040338300E-08,  0.000000000000000E+00], // 1,342,1:3
    [  0.578625376854400E-08,  0.521101617614900E-08,  0.000000000000000E+00], // 1,343,1:3
    [  0.506570670200200E-08,  0.534707508489400E-08,  0.000000000000000E+00], // 1,344,1:3
    [  0.597283888527600E-08,  0.487260977357400E-08,  0.000000000000000E+00], // 1,345,1:3
    [  0.532358587796100E-08,  0.472771132142000E-08,  0.000000000000000E+00], // 1,346,1:3
    [  0.521077268285800E-08,  0.602942601865200E-08,  0.000000000000000E+00], // 1,347,1:3
    [  0.472654904053500E-08,  0.432148528436900E-08,  0.000000000000000E+00], // 1,348,1:3
    [  0.602942510505900E-08,  0.447640676055300E-08,  0.000000000000000E+00], // 1,349,1:3
    [  0.448154282651300E-08,  0.583526827742000E-08,  0.000000000000000E+00], // 1,350,1:3
    [  0.583602450506800E-08,  0.517218360274800E-08,  0.000000000000000E+00], // 1,351,1:3
    [  0.413704661327200E-08,  0.569357146518400E-08,  0.000000000000000E+00], // 1,352,1:3
    [  0.517197747392400E-08,  0.406063496534900E-08,  0.000000000000000E+00], // 1,353,1:3
    [  0.569442983373200E-08,  0.396739877047300E-08,  0.000000000000000E+00], // 1,354,1:3
    [  0.400915892529800E-08,  0.394375400525500E-08,  0.000000000000000E+00], // 1,355,1:3
    [  0.478493959687300E-08,  0.478132342782400E-08,  0.000000000000000E+00], // 1,356,1:3
    [  0.398372502261000E-08,  0.387148378120400E-08,  0.000000000000000E+00], // 1,357,1:3
    [  0.387053523246200E-08,  0.514174173399700E-08,  0.000000000000000E+00], // 1,358,1:3
    [  0.514050121395100E-08,  0.400238597849700E-08,  0.000000000000000E+00], // 1,359,1:3
    [  0.384903481935500E-08,  0.490109260409700E-08,  0.000000000000000E+00], // 1,360,1:3
    [  0.400238307506000E-08,  0.374093263034500E-08,  0.000000000000000E+00], // 1,361,1:3
    [  0.389071954354900E-08,  0.438728371853800E-08,  0.000000000000000E+00], // 1,362,1:3
    [  0.488708460788100E-08,  0.501919780203300E-08,  0.000000000000000E+00], // 1,363,1:3
    [  0.373993928759200E-08,  0.383493169517500E-08,  0.000000000000000E+00], // 1,364,1:3
    [  0.503192591820900E-08,  0.376041394249700E-08,  0.000000000000000E+00], // 1,365,1:3
    [  0.438774876495400E-08,  0.371971720462800E-08,  0.000000000000000E+00], // 1,366,1:3
    [  0.414739809886500E-08,  0.414562353014900E-08,  0.000000000000000E+00], // 1,367,1:3
    [  0.371908999358600E-08,  0.393278842538000E-08,  0.000000000000000E+00], // 1,368,1:3
    [  0.393423846105600E-08,  0.368637747685700E-08,  0.000000000000000E+00], // 1,369,1:3
    [  0.367247137562200E-08,  0.377907795033900E-08,  0.000000000000000E+00], // 1,370,1:3
    [  0.376891127758300E-08,  0.409133455059800E-08,  0.000000000000000E+00], // 1,371,1:3
    [  0.403338841729500E-08,  0.392669453614600E-08,  0.000000000000000E+00], // 1,372,1:3
    [  0.376419461783200E-08,  0.484100025328900E-08,  0.000000000000000E+00], // 1,373,1:3
    [  0.484062822628400E-08,  0.494934013024000E-08,  0.000000000000000E+00], // 1,374,1:3
    [  0.494944392378500E-08,  0.376155773736000E-08,  0.000000000000000E+00], // 1,375,1:3
    [  0.411739308997100E-08,  0.364739626818800E-08,  0.000000000000000E+00], // 1,376,1:3
    [  0.392575402042800E-08,  0.393240507418900E-08,  0.000000000000000E+00], // 1,377,1:3
    [  0.363055175792300E-08,  0.363132250114100E-08,  0.000000000000000E+00], // 1,378,1:3
    [  0.362727480235700E-08,  0.413000742513900E-08,  0.000000000000000E+00], // 1,379,1:3
    [  0.380614388509300E-08,  0.443390596517600E-08,  0.000000000000000E+00], // 1,380,1:3
    [  0.443325464156500E-08,  0.385181417694700E-08,  0.000000000000000E+00], // 1,381,1:3
    [  0.371231984657600E-08,  0.348580705278500E-08,  0.000000000000000E+00], // 1,382,1:3
    [  0.384984753478300E-08,  0.397977281699100E-08,  0.000000000000000E+00], // 1,383,1:3
    [  0.348395543016500E-08,  0.340260746050000E-08,  0.000000000000000E+00], // 1,384,1:3
    [  0.396191273098200E-08,  0.404999300092600E-08,  0.000000000000000E+00], // 1,385,1:3
    [  0.341997824448100E-08,  0.342051118238200E-08,  0.000000000000000E+00], // 1,386,1:3
    [  0.332941775817700E-08,  0.364077236501200E-08,  0.000000000000000E+00], // 1,387,1:3
    [  0.420720689319300E-08,  0.332303798750100E-08,  0.000000000000000E+00], // 1,388,1:3
    [  0.326854897641000E-08,  0.450314166363700E-08,  0.000000000000000E+00], // 1,389,1:3
    [  0.332188008268500E-08,  0.431456005558800E-08,  0.000000000000000E+00], // 1,390,1:3
    [  0.450317301085200E-08,  0.329422694911000E-08,  0.000000000000000E+00], // 1,391,1:3
    [  0.431659909095400E-08,  0.321565719728100E-08,  0.000000000000000E+00], // 1,392,1:3
    [  0.328349332385000E-08,  0.412936265626600E-08,  0.000000000000000E+00], // 1,393,1:3
    [  0.316403354234300E-08,  0.313776297638800E-08,  0.000000000000000E+00], // 1,394,1:3
    [  0.415972095672500E-08,  0.351401095238400E-08,  0.000000000000000E+00], // 1,395,1:3
    [  0.356517689221700E-08,  0.332760757153000E-08,  0.000000000000000E+00], // 1,396,1:3
    [  0.351444095022100E-08,  0.354106694667500E-08,  0.000000000000000E+00], // 1,397,1:3
    [  0.354059687190900E-08,  0.321617984705200E-08,  0.000000000000000E+00], // 1,398,1:3
    [  0.296076990511800E-08,  0.295904505957000E-08,  0.000000000000000E+00], // 1,399,1:3
    [  0.296221373968400E-08,  0.388404032666500E-08,  0.000000000000000E+00], // 1,400,1:3
    [  0.388355670025100E-08,  0.292202753988600E-08,  0.000000000000000E+00], // 1,401,1:3
    [  0.291922551634600E-08,  0.411084638204200E-08,  0.000000000000000E+00], // 1,402,1:3
    [  0.311515886337000E-08,  0.293450841103200E-08,  0.000000000000000E+00], // 1,403,1:3
    [  0.409943814421200E-08,  0.396689619300000E-08,  0.000000000000000E+00], // 1,404,1:3
    [  0.289953185896400E-08,  0.328669582761000E-08,  0.000000000000000E+00], // 1,405,1:3
    [  0.328973342985500E-08,  0.372064309419600E-08,  0.000000000000000E+00], // 1,406,1:3
    [  0.393307561287500E-08,  0.328550890617400E-08,  0.000000000000000E+00], // 1,407,1:3
    [  0.302140376446700E-08,  0.375388057597300E-08,  0.000000000000000E+00], // 1,408,1:3
    [  0.279859894975700E-08,  0.302212938558700E-08,  0.000000000000000E+00], // 1,409,1:3
    [  0.339742130270700E-08,  0.279856920562100E-08,  0.000000000000000E+00], // 1,410,1:3
    [  0.372039800217900E-08,  0.339787207050500E-08,  0.000000000000000E+00], // 1,411,1:3
    [  0.359848418626700E-08,  0.370809977297700E-08,  0.000000000000000E+00], // 1,412,1:3
    [  0.369459402731000E-08,  0.359928354151000E-08,  0.000000000000000E+00], // 1,413,1:3
    [  0.268044415296900E-08,  0.368870275305900E-08,  0.000000000000000E+00], // 1,414,1:3
    [  0.349757486564100E-08,  0.268108472400300E-08,  0.000000000000000E+00], // 1,415,1:3
    [  0.313027412949400E-08,  0.349599346075900E-08,  0.000000000000000E+00], // 1,416,1:3
    [  0.324111906955100E-08,  0.313077032499500E-08,  0.000000000000000E+00], // 1,417,1:3
    [  0.260196084206100E-08,  0.274435382194100E-08,  0.000000000000000E+00], // 1,418,1:3
    [  0.269060152750400E-08,  0.284273290634100E-08,  0.000000000000000E+00], // 1,419,1:3
    [  0.290868815266400E-08,  0.304688268215400E-08,  0.000000000000000E+00], // 1,420,1:3
    [  0.312045613187500E-08,  0.239907245514300E-08,  0.000000000000000E+00], // 1,421,1:3
    [  0.314885542338400E-08,  0.238430627420400E-08,  0.000000000000000E+00], // 1,422,1:3
    [  0.305104426101700E-08,  0.297732450055900E-08,  0.000000000000000E+00], // 1,423,1:3
    [  0.282600687666000E-08,  0.306283525897200E-08,  0.000000000000000E+00], // 1,424,1:3
    [  0.310003419171100E-08,  0.310968258923100E-08,  0.000000000000000E+00], // 1,425,1:3
    [  0.239877164010100E-08,  0.290392035529900E-08,  0.000000000000000E+00], // 1,426,1:3
    [  0.238400284272800E-08,  0.282322198921200E-08,  0.000000000000000E+00], // 1,427,1:3
    [  0.284214651756800E-08,  0.318794969664900E-08,  0.000000000000000E+00], // 1,428,1:3
    [  0.284767437134000E-08,  0.292255977165500E-08,  0.000000000000000E+00], // 1,429,1:3
    [  0.290372214076400E-08,  0.243630206660300E-08,  0.000000000000000E+00], // 1,430,1:3
    [  0.318761071060500E-08,  0.304947304360600E-08,  0.000000000000000E+00], // 1,431,1:3
    [  0.304886999281300E-08,  0.286368257578400E-08,  0.000000000000000E+00], // 1,432,1:3
    [  0.286021695098400E-08,  0.264175051796600E-08,  0.000000000000000E+00], // 1,433,1:3
    [  0.270111768311300E-08,  0.270409346624300E-08,  0.000000000000000E+00], // 1,434,1:3
    [  0.250989159015200E-08,  0.244552217701100E-08,  0.000000000000000E+00], // 1,435,1:3
    [  0.262320025222300E-08,  0.262360881023000E-08,  0.000000000000000E+00], // 1,436,1:3
    [  0.262254166920200E-08,  0.207925970405300E-08,  0.000000000000000E+00], // 1,437,1:3
    [  0.281843566709900E-08,  0.282022559677100E-08,  0.000000000000000E+00], // 1,438,1:3
    [  0.236519679746500E-08,  0.236522195092700E-08,  0.000000000000000E+00], // 1,439,1:3
    [  0.235870464614300E-08,  0.235968207714900E-08,  0.000000000000000E+00], // 1,440,1:3
    [  0.238829948139000E-08,  0.238757713720600E-08,  0.000000000000000E+00], // 1,441,1:3
    [  0.199604121722400E-08,  0.198210208981600E-08,  0.000000000000000E+00], // 1,442,1:3
    [  0.268759306033600E-08,  0.268750238992500E-08,  0.000000000000000E+00], // 1,443,1:3
    [  0.261891367081000E-08,  0.220775166913500E-08,  0.000000000000000E+00], // 1,444,1:3
    [  0.257152305036400E-08,  0.261837021427400E-08,  0.000000000000000E+00], // 1,445,1:3
    [  0.258213500694600E-08,  0.259195188736100E-08,  0.000000000000000E+00], // 1,446,1:3
    [  0.237253019036100E-08,  0.237505565624800E-08,  0.000000000000000E+00], // 1,447,1:3
    [  0.235717848471200E-08,  0.247201997891100E-08,  0.000000000000000E+00], // 1,448,1:3
    [  0.245159039472300E-08,  0.236815712719900E-08,  0.000000000000000E+00], // 1,449,1:3
    [  0.237004594960800E-08,  0.176484660569300E-08,  0.000000000000000E+00], // 1,450,1:3
    [  0.226899726735800E-08,  0.229176960879800E-08,  0.000000000000000E+00], // 1,451,1:3
    [  0.173143213790600E-08,  0.220999731694300E-08,  0.000000000000000E+00], // 1,452,1:3
    [  0.162986974162200E-08,  0.229269909792300E-08,  0.000000000000000E+00], // 1,453,1:3
    [  0.220621580197400E-08,  0.162968301532900E-08,  0.000000000000000E+00], // 1,454,1:3
    [  0.220546955468000E-08,  0.220649286242600E-08,  0.000000000000000E+00], // 1,455,1:3
    [  0.214879236250900E-08,  0.220574656825700E-08,  0.000000000000000E+00], // 1,456,1:3
    [  0.187373365784700E-08,  0.202631076799100E-08,  0.000000000000000E+00], // 1,457,1:3
    [  0.202657375895900E-08,  0.176297762216300E-08,  0.000000000000000E+00], // 1,458,1:3
    [  0.180777032511000E-08,  0.136853504960600E-08,  0.000000000000000E+00], // 1,459,1:3
    [  0.188117440858100E-08,  0.172059877545000E-08,  0.000000000000000E+00], // 1,460,1:3
    [  0.136802367169000E-08,  0.170242901544900E-08,  0.000000000000000E+00], // 1,461,1:3
    [  0.172001791628000E-08,  0.141403319768500E-08,  0.000000000000000E+00], // 1,462,1:3
    [  0.170242766513100E-08,  0.157376895804300E-08,  0.000000000000000E+00], // 1,463,1:3
    [  0.141403251005400E-08,  0.165070518444700E-08,  0.000000000000000E+00], // 1,464,1:3
    [  0.165262604536400E-08,  0.165108761885500E-08,  0.000000000000000E+00], // 1,465,1:3
    [  0.164295776968600E-08,  0.161640951898300E-08,  0.000000000000000E+00], // 1,466,1:3
    [  0.161495240362400E-08,  0.153717517358100E-08,  0.000000000000000E+00], // 1,467,1:3
    [  0.153598829118800E-08,  0.159319198055300E-08,  0.000000000000000E+00], // 1,468,1:3
    [  0.159319373817700E-08,  0.149948017064300E-08,  0.000000000000000E+00], // 1,469,1:3
    [  0.107456912638200E-08,  0.149380784323500E-08,  0.000000000000000E+00], // 1,470,1:3
    [  0.107440821450900E-08,  0.107457119932800E-08,  0.000000000000000E+00], // 1,471,1:3
    [  0.970019967046500E-09,  0.107440698341700E-08,  0.000000000000000E+00], // 1,472,1:3
    [  0.125843351706100E-08,  0.975757685585100E-09,  0.000000000000000E+00], // 1,473,1:3
    [  0.124030322953900E-08,  0.125843288756500E-08,  0.000000000000000E+00], // 1,474,1:3
    [  0.901834594812700E-09,  0.124033634328200E-08,  0.000000000000000E+00], // 1,475,1:3
    [  0.113530143280500E-08,  0.901610700516400E-09,  0.000000000000000E+00], // 1,476,1:3
    [  0.921588795137000E-09,  0.113539236091800E-08,  0.000000000000000E+00], // 1,477,1:3
    [  0.105540105414700E-08,  0.921604608956500E-09,  0.000000000000000E+00], // 1,478,1:3
    [  0.100872597983100E-08,  0.106127661503000E-08,  0.000000000000000E+00], // 1,479,1:3
    [  0.721739810432100E-09,  0.101011059626300E-08,  0.000000000000000E+00], // 1,480,1:3
    [  0.691203313444700E-09,  0.721742475619900E-09,  0.000000000000000E+00], // 1,481,1:3
    [  0.683388152354900E-09,  0.691200384675600E-09,  0.000000000000000E+00], // 1,482,1:3
    [  0.488730420514200E-09,  0.687181466484700E-09,  0.000000000000000E+00], // 1,483,1:3
    [  0.517370975478800E-09,  0.488715801634300E-09,  0.000000000000000E+00], // 1,484,1:3
    [  0.467135309714500E-09,  0.516180286631400E-09,  0.000000000000000E+00], // 1,485,1:3
    [  0.565260843948000E-09,  0.565259955905700E-09,  0.000000000000000E+00], // 1,486,1:3
    [  0.560406133125300E-09,  0.471081260858600E-09,  0.000000000000000E+00], // 1,487,1:3
    [  0.471272336540000E-09,  0.490997750032400E-09,  0.000000000000000E+00], // 1,488,1:3
    [  0.490996746511200E-09,  0.477264183937800E-09,  0.000000000000000E+00], // 1,489,1:3
    [  0.477135826765800E-09,  0.448756256715300E-09,  0.000000000000000E+00], // 1,490,1:3
    [  0.394345144598900E-09,  0.394344123049700E-09,  0.000000000000000E+00], // 1,491,1:3
    [  0.395210912024400E-09,  0.395223691359800E-09,  0.000000000000000E+00], // 1,492,1:3
    [  0.378813459478900E-09,  0.378889836341700E-09,  0.000000000000000E+00], // 1,493,1:3
    [  0.373833019047900E-09,  0.373832932883100E-09,  0.000000000000000E+00], // 1,494,1:3
    [  0.309986667813600E-09,  0.245119916515100E-09,  0.000000000000000E+00], // 1,495,1:3
    [  0.200296271676800E-09,  0.243673440290400E-09,  0.000000000000000E+00], // 1,496,1:3
    [  0.219829133875400E-09,  0.221360527432500E-09,  0.000000000000000E+00], // 1,497,1:3
    [  0.149195833078400E-09,  0.149152120482900E-09,  0.000000000000000E+00], // 1,498,1:3
    [  0.147538407617300E-09,  0.147499532974400E-09,  0.000000000000000E+00], // 1,499,1:3
    [  0.166162662462400E-09,  0.166193947565600E-09,  0.000000000000000E+00], // 1,500,1:3
    [  0.901582346002500E-10,  0.901594674800300E-10,  0.000000000000000E+00], // 1,501,1:3
  ],
  [
    [  0.175348517150400E+01,  0.182658391384600E+00,  0.319870156020900E+01], // 2,1,1:3
    [  0.171034440458200E+01,  0.000000000000000E+00,  0.542236039591300E+01], // 2,2,1:3
    [  0.000000000000000E+00,  0.139527799868000E+00,  0.388022286665200E+01], // 2,3,1:3
    [  0.166722541677000E+01,  0.964142310976300E-01,  0.370436993746800E+01], // 2,4,1:3
    [  0.668751339025100E+00,  0.538114040171200E+01,  0.399963936323500E+01], // 2,5,1:3
    [  0.583063735841300E+00,  0.530101640712800E+01,  0.398473831595200E+01], // 2,6,1:3
    [  0.109233095401100E+01,  0.266251086985000E+01,  0.356541251684100E+01], // 2,7,1:3
    [  0.495536613498700E+00,  0.520790411970400E+01,  0.498450705902000E+01], // 2,8,1:3
    [  0.615301409190100E+01,  0.458218748696800E+01,  0.370275357010800E+01], // 2,9,1:3
    [  0.347274410049200E+01,  0.190068851772600E+01,  0.340965871235700E+01], // 2,10,1:3
    [  0.368984578611900E+01,  0.527310853855600E+01,  0.482956157024600E+01], // 2,11,1:3
    [  0.607393464567200E+01,  0.450304768773800E+01,  0.208072917806600E+01], // 2,12,1:3
    [  0.317570524906900E+01,  0.160562105963700E+01,  0.347629588194800E+01], // 2,13,1:3
    [  0.215248467224600E+01,  0.581284907086100E+00,  0.405663953664800E+01], // 2,14,1:3
    [  0.130696409975000E+01,  0.280734679483600E+01,  0.444815951991100E+01], // 2,15,1:3
    [  0.435498007046600E+01,  0.602922413385500E+01,  0.499170404420800E+01], // 2,16,1:3
    [  0.221822921126700E+01,  0.647299014597400E+00,  0.432535899421900E+01], // 2,17,1:3
    [  0.538478842545800E+01,  0.381384341970000E+01,  0.114182637536300E+01], // 2,18,1:3
    [  0.608760401229100E+01,  0.452780437099600E+01,  0.362434417014300E+01], // 2,19,1:3
    [  0.127942452490600E+01,  0.599178302922400E+01,  0.555425745899800E+01], // 2,20,1:3
    [  0.536912914426600E+01,  0.379870384439700E+01,  0.625176096173500E+01], // 2,21,1:3
    [  0.543647330336700E+00,  0.396125783338800E+01,  0.249734109191300E+01], // 2,22,1:3
    [  0.786783852839500E+00,  0.525624729636900E+01,  0.233507992099200E+01], // 2,23,1:3
    [  0.146144031113400E+01,  0.549903201409700E+01,  0.709414898747400E+00], // 2,24,1:3
    [  0.443294469611600E+01,  0.617309245409700E+01,  0.110191635209100E+01], // 2,25,1:3
    [  0.450223749684600E+01,  0.287024424765100E+01,  0.182549540548600E+01], // 2,26,1:3
    [  0.123944130881500E+01,  0.295233861720100E+01,  0.442474068720800E+01], // 2,27,1:3
    [  0.327243098533100E+01,  0.595177513293300E+01,  0.512049815705300E+01], // 2,28,1:3
    [  0.226547108640400E+01,  0.484545639878500E+01,  0.602977143545100E+01], // 2,29,1:3
    [  0.145474065324500E+01,  0.694532111731100E+00,  0.443519360083600E+00], // 2,30,1:3
    [  0.296206863020600E+01,  0.616722460830100E+01,  0.512415735650700E+01], // 2,31,1:3
    [  0.147325504100600E+01,  0.140012250963200E+01,  0.542183016206500E+01], // 2,32,1:3
    [  0.374390329344700E+00,  0.470334761183000E+01,  0.458210166729700E+01], // 2,33,1:3
    [  0.627417435455400E+01,  0.508674890023700E+01,  0.192656642007200E+01], // 2,34,1:3
    [  0.162411090681600E+01,  0.533100804271300E-01,  0.609017453983400E+00], // 2,35,1:3
    [  0.585205227625600E+01,  0.428368048417800E+01,  0.139343259507700E+01], // 2,36,1:3
    [  0.407209329851300E+01,  0.607420782607300E+01,  0.430867171595100E+01], // 2,37,1:3
    [  0.521701933106900E+01,  0.250142628145000E+01,  0.813396826941400E+00], // 2,38,1:3
    [  0.480205453893400E+01,  0.364634059953600E+01,  0.375520512745400E+01], // 2,39,1:3
    [  0.869191474250200E+00,  0.323286480490200E+01,  0.275955859666400E+01], // 2,40,1:3
    [  0.460185952995000E+01,  0.558143341666900E+01,  0.569964586912100E+01], // 2,41,1:3
    [  0.184435281669400E+01,  0.545357645369400E+01,  0.198674909174600E+01], // 2,42,1:3
    [  0.358279015475000E+01,  0.282395392227300E+00,  0.320501721798300E+01], // 2,43,1:3
    [  0.269527778823000E+01,  0.112436958017500E+01,  0.625674790366600E+01], // 2,44,1:3
    [  0.365132798614200E+01,  0.208915404284000E+01,  0.260167125939400E+00], // 2,45,1:3
    [  0.224130237586200E+01,  0.670485558123000E+00,  0.468693917350600E+01], // 2,46,1:3
    [  0.440712240608100E+01,  0.283641485584000E+01,  0.281586245137200E+01], // 2,47,1:3
    [  0.302430722311900E+01,  0.485243386646700E+00,  0.495689410979700E+01], // 2,48,1:3
    [  0.619253942823700E+01,  0.145351100566800E+01,  0.238119269769600E+01], // 2,49,1:3
    [  0.201475879541600E+01,  0.922408779860900E+00,  0.429485165768400E+01], // 2,50,1:3
    [  0.339950050339700E+01,  0.463170718489500E+01,  0.307517151064200E+01], // 2,51,1:3
    [  0.249338687783700E+01,  0.182949882772600E+01,  0.547753482163300E+00], // 2,52,1:3
    [  0.415949174014300E+01,  0.258859680031700E+01,  0.000000000000000E+00], // 2,53,1:3
    [  0.403416293423000E+01,  0.551681885347600E+00,  0.596857167009700E+01], // 2,54,1:3
    [  0.156221916373400E+01,  0.627567473496000E+01,  0.148909877764300E+01], // 2,55,1:3
    [  0.266273080338600E+01,  0.109190595687200E+01,  0.351297769198300E+01], // 2,56,1:3
    [  0.398582843083300E+01,  0.241500163509000E+01,  0.129070440822100E+00], // 2,57,1:3
    [  0.130814468868900E+01,  0.602033644343800E+01,  0.199108689333700E+01], // 2,58,1:3
    [  0.535281721480400E+01,  0.377563456460500E+01,  0.423835792441400E+01], // 2,59,1:3
    [  0.264426792234900E+01,  0.107345094675600E+01,  0.291109015016600E+01], // 2,60,1:3
    [  0.400884419208000E+01,  0.243117801231000E+01,  0.190893839239000E+01], // 2,61,1:3
    [  0.379455017459700E+01,  0.534335615791400E+01,  0.612921900016800E+00], // 2,62,1:3
    [  0.610711830898200E+01,  0.583083359404700E-01,  0.138041703665100E+01], // 2,63,1:3
    [  0.477145861816300E+01,  0.453608013482100E+01,  0.168050424908400E+01], // 2,64,1:3
    [  0.332711133515900E+01,  0.258509048975400E+00,  0.512742348451100E+01], // 2,65,1:3
    [  0.530570855169400E+01,  0.421331717260300E+01,  0.202027419091700E+01], // 2,66,1:3
    [  0.578423073881400E+01,  0.481441880647800E+00,  0.260677867641800E+01], // 2,67,1:3
    [  0.205206479367900E+01,  0.159995339978800E+01,  0.161301176966300E+01], // 2,68,1:3
    [  0.364499419583000E+01,  0.215741755687300E+01,  0.460448341723600E+01], // 2,69,1:3
    [  0.493037643675800E+01,  0.335939418425400E+01,  0.571896411419300E+01], // 2,70,1:3
    [  0.454208421973100E+00,  0.516570437655800E+01,  0.368965893219600E+01], // 2,71,1:3
    [  0.316112638887800E+01,  0.206536880099300E+01,  0.409976985512200E+01], // 2,72,1:3
    [  0.621499384544600E+00,  0.146860634661200E+01,  0.566083460250900E+01], // 2,73,1:3
    [  0.304013233929700E+01,  0.361563807947400E+01,  0.984222121897400E+00], // 2,74,1:3
    [  0.806497736008700E+00,  0.441713492243500E+01,  0.134136363416300E+00], // 2,75,1:3
    [  0.197414798103400E+01,  0.470086688300400E+01,  0.813013273586600E+00], // 2,76,1:3
    [  0.284592491313500E+01,  0.453890206092200E+01,  0.579149777064400E+01], // 2,77,1:3
    [  0.301790082412000E+01,  0.133419799147500E+01,  0.124980276933100E+01], // 2,78,1:3
    [  0.610971779317900E+01,  0.374927555827500E+01,  0.479568480274300E+01], // 2,79,1:3
    [  0.291155023528900E+01,  0.423662203087300E+00,  0.381042038720800E+01], // 2,80,1:3
    [  0.217914602585600E+01,  0.597084800781100E+01,  0.102926471435100E+01], // 2,81,1:3
    [  0.199416105074400E+01,  0.519463675450100E+01,  0.352804478177900E+01], // 2,82,1:3
    [  0.512568723793600E+01,  0.100243420784600E+01,  0.559388928264600E+01], // 2,83,1:3
    [  0.482264686025200E+00,  0.306677309840300E+01,  0.329963645443300E+01], // 2,84,1:3
    [  0.463763329383100E+01,  0.758831245906300E+00,  0.128604900258400E+01], // 2,85,1:3
    [  0.146703873309300E+01,  0.344497743485600E+01,  0.310030758946400E+01], // 2,86,1:3
    [  0.304471878348500E+00,  0.187312854220500E+01,  0.621268394080700E+01], // 2,87,1:3
    [  0.476422035680500E+01,  0.501589130661500E+01,  0.469911844592800E+01], // 2,88,1:3
    [  0.338363777442800E+01,  0.461827123973000E+01,  0.263050714200400E+01], // 2,89,1:3
    [  0.618908844925100E+01,  0.530000345566900E+01,  0.294643284430500E+01], // 2,90,1:3
    [  0.587496672977400E+00,  0.222981981511500E+01,  0.122483417926400E+01], // 2,91,1:3
    [  0.430299400913200E+01,  0.616148588000800E+01,  0.154380761635100E+01], // 2,92,1:3
    [  0.380047541989100E+01,  0.296735729999900E+01,  0.119177757231000E+01], // 2,93,1:3
    [  0.129466084650200E+01,  0.302700792391700E+01,  0.548349876773700E+01], // 2,94,1:3
    [  0.459479720211400E+01,  0.603759716379800E+01,  0.800083380434800E+00], // 2,95,1:3
    [  0.494304454359100E+00,  0.856147624337400E+00,  0.407798072188800E+00], // 2,96,1:3
    [  0.242694391202800E+01,  0.486973629020900E+01,  0.261749030214700E+01], // 2,97,1:3
    [  0.158297330349900E+00,  0.362641188643600E+01,  0.263470315829000E+01], // 2,98,1:3
    [  0.519724044050400E+01,  0.155097537742700E+01,  0.610244611487300E+01], // 2,99,1:3
    [  0.312036091621700E+01,  0.207582603319000E+01,  0.368182020869100E+01], // 2,100,1:3
    [  0.616470288820500E+01,  0.614887642025500E+01,  0.621604538888600E+01], // 2,101,1:3
    [  0.143742377097900E+01,  0.438258387990600E+01,  0.586494977774400E+01], // 2,102,1:3
    [  0.360968879967900E+01,  0.203664432736100E+01,  0.456662853280200E+01], // 2,103,1:3
    [  0.546301816722500E+01,  0.389227699468700E+01,  0.244272212693000E+01], // 2,104,1:3
    [  0.602890991209700E+01,  0.144795064974400E+01,  0.162662805068200E+01], // 2,105,1:3
    [  0.310964557499700E+01,  0.445785469296100E+01,  0.280360451260900E+01], // 2,106,1:3
    [  0.353935933286600E+01,  0.153881814715100E+01,  0.465400289715800E+01], // 2,107,1:3
    [  0.125932156977200E+01,  0.196852322076000E+01,  0.432651833325300E+01], // 2,108,1:3
    [  0.106594939260900E+01,  0.577980349998500E+01,  0.451961457832800E+01], // 2,109,1:3
    [  0.219250874383700E+01,  0.621097522138800E+00,  0.301262691254900E+01], // 2,110,1:3
    [  0.405441127865000E+01,  0.259196380799800E+01,  0.129010142405200E+00], // 2,111,1:3
    [  0.542976474851800E+01,  0.248361281267000E+01,  0.386404679941400E+01], // 2,112,1:3
    [  0.504658620657500E+01,  0.385755457979600E+01,  0.505377723589100E+01], // 2,113,1:3
    [  0.262885803080600E+01,  0.582636851298400E+01,  0.222247019254800E+01], // 2,114,1:3
    [  0.417729271990700E+01,  0.347569457398700E+01,  0.871906725777400E+00], // 2,115,1:3
    [  0.160134523255700E+01,  0.305907048898300E-01,  0.403149109804000E+01], // 2,116,1:3
    [  0.246388899751300E+01,  0.158319483772800E+01,  0.593837946683500E+01], // 2,117,1:3
    [  0.315402208871800E+01,  0.851977053463700E+00,  0.654472260679700E+00], // 2,118,1:3
    [  0.479503581608800E+01,  0.131959873873200E+00,  0.205907285323600E+01], // 2,119,1:3
    [  0.295298339523000E+01,  0.993786011561800E+00,  0.364481353260500E+01], // 2,120,1:3
    [  0.542054799146400E+01,  0.138213840539900E+01,  0.324181505560200E+01], // 2,121,1:3
    [  0.369564675366700E+01,  0.383339785173500E+01,  0.504381234245700E+01], // 2,122,1:3
    [  0.392267530660900E+01,  0.212491381439000E+01,  0.500002450275300E+01], // 2,123,1:3
    [  0.123396862486100E+01,  0.594630534376300E+01,  0.139873487182100E-01], // 2,124,1:3
    [  0.191954228068400E+01,  0.457465497708900E+01,  0.506711172313000E+01], // 2,125,1:3
    [  0.461590272436900E+01,  0.594923268684400E+01,  0.559738220007500E+01], // 2,126,1:3
    [  0.123686371907200E+01,  0.349524299056400E+01,  0.260133820942200E+01], // 2,127,1:3
    [  0.328680010155900E+00,  0.431011347166100E+01,  0.581483210925600E+01], // 2,128,1:3
    [  0.588094215836700E+01,  0.548030932365000E+01,  0.338482060907600E+01], // 2,129,1:3
    [  0.767487198766100E+00,  0.541109771365400E+01,  0.107239184047300E+01], // 2,130,1:3
    [  0.698712915011600E+00,  0.182784997395100E+01,  0.236954039332700E+01], // 2,131,1:3
    [  0.357682479444300E+01,  0.544358494334900E+01,  0.525557575108200E+01], // 2,132,1:3
    [  0.503361524536900E+01,  0.201153545906000E+01,  0.548235624618200E+01], // 2,133,1:3
    [  0.944992704567300E+00,  0.346456252924900E+01,  0.957363476314300E+00], // 2,134,1:3
    [  0.620634228034100E+01,  0.565755622881500E+01,  0.188720302520200E+01], // 2,135,1:3
    [  0.503607909575700E+01,  0.346381659382100E+01,  0.398218393115700E+01], // 2,136,1:3
    [  0.610510637135000E+01,  0.153225949869700E+01,  0.278745715629800E+01], // 2,137,1:3
    [  0.723774735901800E+00,  0.137539659887500E+01,  0.000000000000000E+00], // 2,138,1:3
    [  0.397636796966600E+01,  0.240564580197200E+01,  0.000000000000000E+00], // 2,139,1:3
    [  0.430542391062300E+01,  0.539754179902700E+01,  0.000000000000000E+00], // 2,140,1:3
    [  0.350013682520000E+01,  0.476234710541900E+01,  0.000000000000000E+00], // 2,141,1:3
    [  0.351477924610000E+01,  0.271194469216400E+01,  0.000000000000000E+00], // 2,142,1:3
    [  0.274345792867900E+01,  0.235298043023900E+01,  0.000000000000000E+00], // 2,143,1:3
    [  0.224259811820900E+01,  0.194394018069900E+01,  0.000000000000000E+00], // 2,144,1:3
    [  0.233283270752700E+01,  0.433765184695900E+01,  0.000000000000000E+00], // 2,145,1:3
    [  0.219110535895600E+01,  0.671687136927800E+00,  0.000000000000000E+00], // 2,146,1:3
    [  0.445755939669800E+01,  0.222971446050500E+01,  0.000000000000000E+00], // 2,147,1:3
    [  0.349923476140400E+01,  0.762701392058000E+00,  0.000000000000000E+00], // 2,148,1:3
    [  0.644169107925100E+00,  0.620278547896100E+00,  0.000000000000000E+00], // 2,149,1:3
    [  0.225259915109200E+01,  0.288677559666800E+01,  0.000000000000000E+00], // 2,150,1:3
    [  0.199281241764600E+01,  0.197724101205100E+01,  0.000000000000000E+00], // 2,151,1:3
    [  0.374467208294200E+01,  0.192292348482500E+01,  0.000000000000000E+00], // 2,152,1:3
    [  0.133422621174500E+01,  0.357075716463100E+01,  0.000000000000000E+00], // 2,153,1:3
    [  0.439583615915400E+01,  0.519755894776500E+01,  0.000000000000000E+00], // 2,154,1:3
    [  0.258704300799700E+01,  0.819349736892200E+00,  0.000000000000000E+00], // 2,155,1:3
    [  0.478249976912800E+01,  0.540633666558600E+01,  0.000000000000000E+00], // 2,156,1:3
    [  0.731225761992400E+00,  0.283776065453600E+01,  0.000000000000000E+00], // 2,157,1:3
    [  0.300137637253200E+01,  0.293358029705000E+01,  0.000000000000000E+00], // 2,158,1:3
    [  0.376722212854100E+01,  0.415787149437700E+01,  0.000000000000000E+00], // 2,159,1:3
    [  0.366359445027300E+01,  0.321170356170300E+01,  0.000000000000000E+00], // 2,160,1:3
    [  0.433118791904900E+01,  0.145909810292200E+01,  0.000000000000000E+00], // 2,161,1:3
    [  0.581619574551800E+01,  0.143045767613600E+01,  0.000000000000000E+00], // 2,162,1:3
    [  0.832367243567200E+00,  0.219642591673000E+01,  0.000000000000000E+00], // 2,163,1:3
    [  0.378502397629300E+01,  0.208661289026800E+01,  0.000000000000000E+00], // 2,164,1:3
    [  0.237822072878300E+01,  0.276020496653500E+01,  0.000000000000000E+00], // 2,165,1:3
    [  0.286410342326900E+01,  0.424536897186200E+01,  0.000000000000000E+00], // 2,166,1:3
    [  0.241540859597500E+01,  0.554472578701600E+01,  0.000000000000000E+00], // 2,167,1:3
    [  0.334347930980100E+01,  0.221398436358600E+01,  0.000000000000000E+00], // 2,168,1:3
    [  0.282174239826200E+01,  0.807578195289600E+00,  0.000000000000000E+00], // 2,169,1:3
    [  0.562466245871200E+01,  0.129326854037800E+01,  0.000000000000000E+00], // 2,170,1:3
    [  0.555725027500900E+00,  0.398614117580400E+01,  0.000000000000000E+00], // 2,171,1:3
    [  0.329669178000500E+01,  0.127611273823100E+01,  0.000000000000000E+00], // 2,172,1:3
    [  0.381444399944300E+01,  0.491611174152700E+01,  0.000000000000000E+00], // 2,173,1:3
    [  0.356022918925000E+01,  0.172580586442600E+01,  0.000000000000000E+00], // 2,174,1:3
    [  0.518538918056800E+01,  0.224364244210600E+01,  0.000000000000000E+00], // 2,175,1:3
    [  0.392138190967900E+01,  0.361413511827100E+01,  0.000000000000000E+00], // 2,176,1:3
    [  0.419065895538600E+01,  0.246087339346000E+01,  0.000000000000000E+00], // 2,177,1:3
    [  0.554602337109700E+01,  0.567843177179000E+01,  0.000000000000000E+00], // 2,178,1:3
    [  0.623103279449400E+01,  0.381401747729100E+01,  0.000000000000000E+00], // 2,179,1:3
    [  0.620706341919000E+01,  0.466021622917100E+01,  0.000000000000000E+00], // 2,180,1:3
    [  0.119525737571300E+01,  0.590690624373500E+01,  0.000000000000000E+00], // 2,181,1:3
    [  0.180469424099800E+01,  0.953614644588200E+00,  0.000000000000000E+00], // 2,182,1:3
    [  0.559781134350000E+01,  0.394220509764400E+01,  0.000000000000000E+00], // 2,183,1:3
    [  0.319105936653000E+01,  0.162481027128600E+01,  0.000000000000000E+00], // 2,184,1:3
    [  0.409434803257000E+01,  0.403046714257500E+01,  0.000000000000000E+00], // 2,185,1:3
    [  0.521928273879400E+01,  0.364887881869400E+01,  0.000000000000000E+00], // 2,186,1:3
    [  0.103724754455400E+01,  0.574958401709600E+01,  0.000000000000000E+00], // 2,187,1:3
    [  0.143002081611600E+01,  0.263012418707000E+01,  0.000000000000000E+00], // 2,188,1:3
    [  0.300291140367700E+01,  0.179034640362900E+01,  0.000000000000000E+00], // 2,189,1:3
    [  0.243704675729200E+01,  0.614219830161100E+01,  0.000000000000000E+00], // 2,190,1:3
    [  0.158159468964700E+01,  0.143242138649200E+01,  0.000000000000000E+00], // 2,191,1:3
    [  0.537986312152100E+01,  0.230282247579200E+01,  0.000000000000000E+00], // 2,192,1:3
    [  0.490422263932900E+01,  0.866047099457100E+00,  0.000000000000000E+00], // 2,193,1:3
    [  0.364644899731500E+01,  0.606972199538300E+01,  0.000000000000000E+00], // 2,194,1:3
    [  0.330782930014400E+01,  0.107902033179500E-01,  0.000000000000000E+00], // 2,195,1:3
    [  0.174754125112500E+01,  0.380906690228300E+01,  0.000000000000000E+00], // 2,196,1:3
    [  0.178468943260700E-01,  0.207543511441700E+01,  0.000000000000000E+00], // 2,197,1:3
    [  0.442005527626000E+01,  0.205780312015400E+01,  0.000000000000000E+00], // 2,198,1:3
    [  0.362977392920800E+01,  0.151006848801000E+01,  0.000000000000000E+00], // 2,199,1:3
    [  0.307962370678000E+01,  0.504361752890100E+01,  0.000000000000000E+00], // 2,200,1:3
    [  0.331248790350700E+00,  0.369479321820500E+01,  0.000000000000000E+00], // 2,201,1:3
    [  0.526552040177400E+01,  0.545061899904900E-01,  0.000000000000000E+00], // 2,202,1:3
    [  0.476666408125000E+01,  0.338116408450200E+01,  0.000000000000000E+00], // 2,203,1:3
    [  0.506914653069100E+01,  0.438230902521000E+01,  0.000000000000000E+00], // 2,204,1:3
    [  0.595493511227100E+01,  0.914221225651800E+00,  0.000000000000000E+00], // 2,205,1:3
    [  0.406178958926700E+01,  0.567617229315400E+01,  0.000000000000000E+00], // 2,206,1:3
    [  0.248504770524100E+01,  0.259276797762500E+01,  0.000000000000000E+00], // 2,207,1:3
    [  0.416377920932000E+01,  0.540497627118000E+01,  0.000000000000000E+00], // 2,208,1:3
    [  0.692383913382800E+00,  0.437328458702700E+01,  0.000000000000000E+00], // 2,209,1:3
    [  0.594417359567600E+01,  0.585918218848200E+01,  0.000000000000000E+00], // 2,210,1:3
    [  0.464101367196700E+01,  0.455538155745100E+01,  0.000000000000000E+00], // 2,211,1:3
    [  0.612579651875700E+01,  0.393316558495900E+01,  0.000000000000000E+00], // 2,212,1:3
    [  0.223457232450400E+00,  0.522797718908700E+01,  0.000000000000000E+00], // 2,213,1:3
    [  0.428101240544000E+01,  0.485806035394900E+01,  0.000000000000000E+00], // 2,214,1:3
    [  0.142994387487000E+00,  0.569054655360500E+01,  0.000000000000000E+00], // 2,215,1:3
    [  0.978180381694800E+00,  0.409953929744600E+01,  0.000000000000000E+00], // 2,216,1:3
    [  0.567036813017300E+01,  0.438259476991300E+00,  0.000000000000000E+00], // 2,217,1:3
    [  0.200898500683300E+01,  0.182978415244400E+01,  0.000000000000000E+00], // 2,218,1:3
    [  0.256618620245300E+00,  0.283625427897300E+01,  0.000000000000000E+00], // 2,219,1:3
    [  0.440812189149300E+01,  0.280349492583300E+01,  0.000000000000000E+00], // 2,220,1:3
    [  0.527274503865600E+01,  0.283689795967700E+01,  0.000000000000000E+00], // 2,221,1:3
    [  0.440772047902900E+01,  0.612752244602400E+01,  0.000000000000000E+00], // 2,222,1:3
    [  0.194389231507400E+00,  0.368316363500800E+01,  0.000000000000000E+00], // 2,223,1:3
    [  0.141857092454500E+01,  0.331699386724600E+00,  0.000000000000000E+00], // 2,224,1:3
    [  0.472460343943000E+01,  0.829409780548000E+00,  0.000000000000000E+00], // 2,225,1:3
    [  0.240026687459800E+01,  0.365949222026100E+01,  0.000000000000000E+00], // 2,226,1:3
    [  0.523034802873200E+01,  0.477449206718200E+01,  0.000000000000000E+00], // 2,227,1:3
    [  0.209919032894500E+01,  0.287312059768200E+01,  0.000000000000000E+00], // 2,228,1:3
    [  0.346752784484800E+00,  0.528244117792900E+00,  0.000000000000000E+00], // 2,229,1:3
    [  0.709864235634000E+00,  0.132078965425800E+01,  0.000000000000000E+00], // 2,230,1:3
    [  0.594334962037200E+01,  0.191711091625600E+01,  0.000000000000000E+00], // 2,231,1:3
    [  0.704065347898000E+00,  0.297263593713200E+01,  0.000000000000000E+00], // 2,232,1:3
    [  0.448706476034500E+01,  0.437256926198100E+01,  0.000000000000000E+00], // 2,233,1:3
    [  0.299339157099500E+01,  0.541642492642500E+01,  0.000000000000000E+00], // 2,234,1:3
    [  0.227804919825100E+01,  0.309444889875200E+01,  0.000000000000000E+00], // 2,235,1:3
    [  0.168211472582700E+01,  0.280210368980800E+01,  0.000000000000000E+00], // 2,236,1:3
    [  0.326266860257900E+01,  0.213643502046700E+01,  0.000000000000000E+00], // 2,237,1:3
    [  0.318777122177700E+01,  0.707262743567400E+00,  0.000000000000000E+00], // 2,238,1:3
    [  0.565016230864700E+01,  0.394760714323700E+01,  0.000000000000000E+00], // 2,239,1:3
    [  0.548706860750700E+01,  0.407924890919000E+01,  0.000000000000000E+00], // 2,240,1:3
    [  0.574568817220100E+01,  0.626963712284000E+01,  0.000000000000000E+00], // 2,241,1:3
    [  0.574806020365900E+01,  0.417565797070200E+01,  0.000000000000000E+00], // 2,242,1:3
    [  0.622684850579000E+01,  0.147654054756000E+01,  0.000000000000000E+00], // 2,243,1:3
    [  0.618931887856300E+01,  0.465347771524100E+01,  0.000000000000000E+00], // 2,244,1:3
    [  0.537181288439400E+01,  0.257300112822500E+01,  0.000000000000000E+00], // 2,245,1:3
    [  0.147168756971200E+01,  0.561279961877100E+01,  0.000000000000000E+00], // 2,246,1:3
    [  0.414383666212700E+01,  0.418966162387000E+01,  0.000000000000000E+00], // 2,247,1:3
    [  0.900347766195700E+00,  0.265691547219600E+01,  0.000000000000000E+00], // 2,248,1:3
    [  0.576050553642800E+01,  0.561251576013800E+01,  0.000000000000000E+00], // 2,249,1:3
    [  0.108547172946300E+01,  0.478341431791900E+01,  0.000000000000000E+00], // 2,250,1:3
    [  0.540987087013300E+01,  0.269443113806300E+01,  0.000000000000000E+00], // 2,251,1:3
    [  0.139720517460100E+01,  0.410510348966600E+01,  0.000000000000000E+00], // 2,252,1:3
    [  0.900180480909500E+00,  0.308243719401500E+00,  0.000000000000000E+00], // 2,253,1:3
    [  0.426252827554400E+01,  0.612407233408700E+01,  0.000000000000000E+00], // 2,254,1:3
    [  0.141164201202700E+01,  0.373310398169700E+01,  0.000000000000000E+00], // 2,255,1:3
    [  0.284447240361500E+01,  0.126712770681700E+01,  0.000000000000000E+00], // 2,256,1:3
    [  0.529583552222300E+01,  0.436779011226900E+01,  0.000000000000000E+00], // 2,257,1:3
    [  0.496942813549700E+01,  0.338720176870000E+01,  0.000000000000000E+00], // 2,258,1:3
    [  0.249136956180600E+01,  0.920414307373700E+00,  0.000000000000000E+00], // 2,259,1:3
    [  0.467942624897600E+01,  0.578687489642600E+01,  0.000000000000000E+00], // 2,260,1:3
    [  0.107450995332800E+01,  0.316423287074600E+01,  0.000000000000000E+00], // 2,261,1:3
    [  0.473509791822400E+01,  0.258676241335100E+01,  0.000000000000000E+00], // 2,262,1:3
    [  0.415864918733800E+01,  0.623906843660700E+01,  0.000000000000000E+00], // 2,263,1:3
    [  0.343820861369900E+01,  0.186738005142400E+01,  0.000000000000000E+00], // 2,264,1:3
    [  0.191330078122900E+01,  0.342471629372700E+00,  0.000000000000000E+00], // 2,265,1:3
    [  0.948768364412500E+00,  0.566137299065700E+01,  0.000000000000000E+00], // 2,266,1:3
    [  0.322814166428700E+01,  0.576836723909300E+01,  0.000000000000000E+00], // 2,267,1:3
    [  0.221660785430000E+01,  0.165735122294300E+01,  0.000000000000000E+00], // 2,268,1:3
    [  0.262511645973300E+01,  0.645829235086500E+00,  0.000000000000000E+00], // 2,269,1:3
    [  0.586056244921400E+01,  0.105430614074100E+01,  0.000000000000000E+00], // 2,270,1:3
    [  0.788568291738100E+00,  0.250527837911400E+01,  0.000000000000000E+00], // 2,271,1:3
    [  0.393214883118900E+01,  0.428973727700000E+01,  0.000000000000000E+00], // 2,272,1:3
    [  0.999560552169100E+00,  0.550059767314100E+01,  0.000000000000000E+00], // 2,273,1:3
    [  0.526376974267300E+01,  0.236140595346800E+01,  0.000000000000000E+00], // 2,274,1:3
    [  0.149684322036500E+01,  0.285131057626900E+01,  0.000000000000000E+00], // 2,275,1:3
    [  0.700903951721400E+00,  0.620877770534300E+01,  0.000000000000000E+00], // 2,276,1:3
    [  0.404154493851100E+01,  0.541309142393400E+01,  0.000000000000000E+00], // 2,277,1:3
    [  0.144758669231600E+01,  0.561396947975500E+01,  0.000000000000000E+00], // 2,278,1:3
    [  0.459424971811200E+00,  0.110612487701500E+01,  0.000000000000000E+00], // 2,279,1:3
    [  0.392555057903600E+01,  0.286922447647700E+01,  0.000000000000000E+00], // 2,280,1:3
    [  0.441134185603700E+01,  0.615964089934400E+01,  0.000000000000000E+00], // 2,281,1:3
    [  0.240265972481300E+01,  0.137490119878400E+01,  0.000000000000000E+00], // 2,282,1:3
    [  0.140157974342300E+01,  0.517108064132700E+01,  0.000000000000000E+00], // 2,283,1:3
    [  0.524597800081400E+01,  0.831732030490200E+00,  0.000000000000000E+00], // 2,284,1:3
    [  0.359080335694500E+01,  0.360559196918000E+01,  0.000000000000000E+00], // 2,285,1:3
    [  0.247015050167900E+01,  0.611429919684300E+01,  0.000000000000000E+00], // 2,286,1:3
    [  0.132860616123000E+01,  0.367515368373700E+01,  0.000000000000000E+00], // 2,287,1:3
    [  0.616225622599800E+01,  0.331332881302400E+01,  0.000000000000000E+00], // 2,288,1:3
    [  0.394256896703900E+01,  0.201998096005300E+01,  0.000000000000000E+00], // 2,289,1:3
    [  0.236024628723300E+00,  0.899201552417700E+00,  0.000000000000000E+00], // 2,290,1:3
    [  0.461980563428000E+01,  0.289866996364800E+01,  0.000000000000000E+00], // 2,291,1:3
    [  0.378472784745100E+01,  0.494671590447800E+01,  0.000000000000000E+00], // 2,292,1:3
    [  0.222335248760100E+01,  0.237178788846900E+01,  0.000000000000000E+00], // 2,293,1:3
    [  0.128869463687400E+01,  0.221377519061200E+01,  0.000000000000000E+00], // 2,294,1:3
    [  0.535986956777400E+01,  0.342937878773900E+01,  0.000000000000000E+00], // 2,295,1:3
    [  0.551661667585600E+01,  0.619587856440400E+01,  0.000000000000000E+00], // 2,296,1:3
    [  0.263045998456700E+01,  0.651150952739000E+00,  0.000000000000000E+00], // 2,297,1:3
    [  0.284981582722700E+01,  0.600108363942100E+01,  0.000000000000000E+00], // 2,298,1:3
    [  0.379524445075000E+01,  0.378907326508700E+01,  0.000000000000000E+00], // 2,299,1:3
    [  0.523641312736300E+00,  0.105965958220400E+01,  0.000000000000000E+00], // 2,300,1:3
    [  0.479460542442600E+01,  0.128031562436100E+01,  0.000000000000000E+00], // 2,301,1:3
    [  0.157875237032800E+01,  0.222443910676600E+01,  0.000000000000000E+00], // 2,302,1:3
    [  0.570892611376100E+01,  0.523491443386700E+01,  0.000000000000000E+00], // 2,303,1:3
    [  0.384240253024100E+01,  0.413798944149000E+01,  0.000000000000000E+00], // 2,304,1:3
    [  0.306754898153500E+01,  0.175841100949700E+01,  0.000000000000000E+00], // 2,305,1:3
    [  0.131393003006900E+01,  0.591928508999400E+01,  0.000000000000000E+00], // 2,306,1:3
    [  0.348850040888600E+01,  0.541461693882700E+01,  0.000000000000000E+00], // 2,307,1:3
    [  0.153206162619800E+01,  0.149651655713400E+01,  0.000000000000000E+00], // 2,308,1:3
    [  0.328585992999300E+01,  0.191991824276400E+01,  0.000000000000000E+00], // 2,309,1:3
    [  0.147734199946400E+01,  0.381961585545800E+01,  0.000000000000000E+00], // 2,310,1:3
    [  0.158611866309600E+01,  0.624426411514100E+01,  0.000000000000000E+00], // 2,311,1:3
    [  0.130488786880300E+01,  0.503773187261000E+00,  0.000000000000000E+00], // 2,312,1:3
    [  0.455533358935000E+01,  0.298455727199500E+01,  0.000000000000000E+00], // 2,313,1:3
    [  0.300176284206200E+01,  0.608703814069700E+01,  0.000000000000000E+00], // 2,314,1:3
    [  0.488678000759500E+01,  0.585566899407600E+01,  0.000000000000000E+00], // 2,315,1:3
    [  0.470150960382400E+01,  0.244312857474000E+01,  0.000000000000000E+00], // 2,316,1:3
    [  0.458835781727800E+01,  0.301756123419400E+01,  0.000000000000000E+00], // 2,317,1:3
    [  0.116454303889300E+01,  0.588738671293500E+01,  0.000000000000000E+00], // 2,318,1:3
    [  0.391917125964500E+01,  0.348346105989500E+00,  0.000000000000000E+00], // 2,319,1:3
    [  0.214382825354200E+01,  0.541738705670700E+01,  0.000000000000000E+00], // 2,320,1:3
    [  0.606656443424100E+01,  0.284819364478300E+01,  0.000000000000000E+00], // 2,321,1:3
    [  0.292631642947200E+01,  0.234988252082800E+01,  0.000000000000000E+00], // 2,322,1:3
    [  0.324430359150500E+01,  0.572857594407700E+00,  0.000000000000000E+00], // 2,323,1:3
    [  0.340430470366200E+01,  0.449579612593700E+01,  0.000000000000000E+00], // 2,324,1:3
    [  0.853237780319200E+00,  0.135544196767700E+01,  0.000000000000000E+00], // 2,325,1:3
    [  0.490196677441900E+01,  0.167342286430700E+01,  0.000000000000000E+00], // 2,326,1:3
    [  0.187467231579700E+01,  0.183350220637300E+01,  0.000000000000000E+00], // 2,327,1:3
    [  0.373572606433400E+01,  0.333112206582400E+01,  0.000000000000000E+00], // 2,328,1:3
    [  0.450203389993500E+01,  0.216532714267900E+01,  0.000000000000000E+00], // 2,329,1:3
    [  0.437233479987800E+01,  0.293114608928400E+01,  0.000000000000000E+00], // 2,330,1:3
    [  0.258161730290800E+01,  0.413440799408800E+01,  0.000000000000000E+00], // 2,331,1:3
    [  0.297481151315800E+01,  0.380542030374900E+01,  0.000000000000000E+00], // 2,332,1:3
    [  0.179607374824400E+00,  0.108246926059900E+01,  0.000000000000000E+00], // 2,333,1:3
    [  0.198199813697300E+01,  0.838433367840100E+00,  0.000000000000000E+00], // 2,334,1:3
    [  0.255917417160500E+00,  0.355258874930900E+01,  0.000000000000000E+00], // 2,335,1:3
    [  0.275096710677600E+01,  0.432082640952800E+01,  0.000000000000000E+00], // 2,336,1:3
    [  0.632594752357800E+00,  0.481187945444500E+01,  0.000000000000000E+00], // 2,337,1:3
    [  0.167230451906700E+01,  0.994262892239600E-01,  0.000000000000000E+00], // 2,338,1:3
    [  0.351256617257500E+01,  0.246655760776400E+01,  0.000000000000000E+00], // 2,339,1:3
    [  0.561093221918900E+01,  0.455197874868300E+01,  0.000000000000000E+00], // 2,340,1:3
    [  0.403750113125600E+01,  0.571081231242500E+01,  0.000000000000000E+00], // 2,341,1:3
    [  0.612277496824000E+01,  0.133399842835800E+01,  0.000000000000000E+00], // 2,342,1:3
    [  0.552798499951500E+01,  0.464931536076000E+01,  0.000000000000000E+00], // 2,343,1:3
    [  0.998076557362400E+00,  0.551275408120500E+01,  0.000000000000000E+00], // 2,344,1:3
    [  0.604448949320300E+01,  0.130802529993800E+01,  0.000000000000000E+00], // 2,345,1:3
    [  0.392426599814700E+01,  0.214490836806200E+01,  0.000000000000000E+00], // 2,346,1:3
    [  0.622011137690100E+01,  0.556725941208400E+01,  0.000000000000000E+00], // 2,347,1:3
    [  0.371604320686200E+01,  0.523066715645100E+01,  0.000000000000000E+00], // 2,348,1:3
    [  0.854870407111600E+00,  0.613408111530300E+01,  0.000000000000000E+00], // 2,349,1:3
    [  0.142692507282900E+01,  0.478380849207100E+01,  0.000000000000000E+00], // 2,350,1:3
    [  0.713565175262500E-01,  0.516181791109900E+01,  0.000000000000000E+00], // 2,351,1:3
    [  0.533076764328300E+01,  0.138164620311100E+01,  0.000000000000000E+00], // 2,352,1:3
    [  0.449426233535300E+00,  0.387670525949500E+00,  0.000000000000000E+00], // 2,353,1:3
    [  0.295236958221500E+01,  0.502949177622300E+01,  0.000000000000000E+00], // 2,354,1:3
    [  0.350000341653500E+01,  0.192316295549000E+01,  0.000000000000000E+00], // 2,355,1:3
    [  0.619670941318100E+01,  0.463333258642300E+01,  0.000000000000000E+00], // 2,356,1:3
    [  0.510369003189700E+01,  0.161665000974300E+01,  0.000000000000000E+00], // 2,357,1:3
    [  0.318756958740100E+01,  0.981731670465900E-01,  0.000000000000000E+00], // 2,358,1:3
    [  0.166892435745700E+01,  0.365616121213900E+01,  0.000000000000000E+00], // 2,359,1:3
    [  0.444572251030900E+01,  0.440409871309200E+01,  0.000000000000000E+00], // 2,360,1:3
    [  0.522622415242300E+01,  0.518118873263900E+00,  0.000000000000000E+00], // 2,361,1:3
    [  0.437116655027400E+01,  0.325485956686900E+01,  0.000000000000000E+00], // 2,362,1:3
    [  0.597355668969300E+01,  0.308677322467700E+01,  0.000000000000000E+00], // 2,363,1:3
    [  0.208908471460000E+01,  0.279788267354200E+01,  0.000000000000000E+00], // 2,364,1:3
    [  0.465837193682700E+01,  0.289267628021700E+01,  0.000000000000000E+00], // 2,365,1:3
    [  0.482558055281900E+01,  0.586104602573900E+01,  0.000000000000000E+00], // 2,366,1:3
    [  0.373900352499800E+01,  0.216823962703300E+01,  0.000000000000000E+00], // 2,367,1:3
    [  0.114894138653600E+01,  0.627181112418100E+01,  0.000000000000000E+00], // 2,368,1:3
    [  0.155989300834300E+01,  0.393685315140400E+01,  0.000000000000000E+00], // 2,369,1:3
    [  0.551614538361200E+01,  0.140414873404300E+01,  0.000000000000000E+00], // 2,370,1:3
    [  0.611605370056300E+01,  0.245243618085400E+01,  0.000000000000000E+00], // 2,371,1:3
    [  0.507682174601700E+01,  0.610229273904000E+01,  0.000000000000000E+00], // 2,372,1:3
    [  0.816467623207500E+00,  0.607276045727600E+01,  0.000000000000000E+00], // 2,373,1:3
    [  0.136047945367100E+01,  0.115483281517100E+01,  0.000000000000000E+00], // 2,374,1:3
    [  0.272562222992600E+01,  0.552754532189700E+01,  0.000000000000000E+00], // 2,375,1:3
    [  0.605445962849200E+00,  0.152503568862900E+01,  0.000000000000000E+00], // 2,376,1:3
    [  0.857046213521000E+00,  0.557068104056900E+01,  0.000000000000000E+00], // 2,377,1:3
    [  0.355206733827900E+01,  0.198124060116000E+01,  0.000000000000000E+00], // 2,378,1:3
    [  0.309656508531300E+01,  0.205006088020100E+01,  0.000000000000000E+00], // 2,379,1:3
    [  0.636775170977700E+00,  0.327747797032100E+01,  0.000000000000000E+00], // 2,380,1:3
    [  0.484846150393700E+01,  0.521069007488600E+01,  0.000000000000000E+00], // 2,381,1:3
    [  0.133195064365500E+01,  0.665327490461100E+00,  0.000000000000000E+00], // 2,382,1:3
    [  0.495836829774600E+00,  0.176794143614800E+01,  0.000000000000000E+00], // 2,383,1:3
    [  0.223721551570700E+01,  0.342174630646500E+01,  0.000000000000000E+00], // 2,384,1:3
    [  0.333240218857500E+01,  0.112714478754700E+01,  0.000000000000000E+00], // 2,385,1:3
    [  0.578560057601600E+01,  0.421479477916100E+01,  0.000000000000000E+00], // 2,386,1:3
    [  0.981267655970900E-01,  0.532490549768700E+01,  0.000000000000000E+00], // 2,387,1:3
    [  0.949478046823600E+00,  0.613576183827100E+01,  0.000000000000000E+00], // 2,388,1:3
    [  0.173933209568600E+00,  0.180230545066600E+01,  0.000000000000000E+00], // 2,389,1:3
    [  0.142335480066600E+01,  0.481229973157400E+01,  0.000000000000000E+00], // 2,390,1:3
    [  0.231497267529300E+00,  0.365754705972300E+01,  0.000000000000000E+00], // 2,391,1:3
    [  0.101264678261600E+00,  0.486667689442500E+01,  0.000000000000000E+00], // 2,392,1:3
    [  0.523330688126500E+01,  0.380934255890600E+01,  0.000000000000000E+00], // 2,393,1:3
    [  0.400559725751100E+01,  0.249463517444300E+01,  0.000000000000000E+00], // 2,394,1:3
    [  0.536567624202000E+01,  0.269996183167800E+01,  0.000000000000000E+00], // 2,395,1:3
    [  0.428444062061200E+01,  0.331845771481600E+01,  0.000000000000000E+00], // 2,396,1:3
    [  0.427056263657500E+01,  0.438270358246600E+01,  0.000000000000000E+00], // 2,397,1:3
    [  0.595355320106000E+01,  0.527106631705400E+01,  0.000000000000000E+00], // 2,398,1:3
    [  0.111518041771800E+01,  0.581959158530200E+01,  0.000000000000000E+00], // 2,399,1:3
    [  0.386381191818600E+01,  0.598093496042800E+01,  0.000000000000000E+00], // 2,400,1:3
    [  0.126861792830200E+01,  0.333729028248300E+01,  0.000000000000000E+00], // 2,401,1:3
    [  0.490860522326500E+01,  0.574297818732700E+01,  0.000000000000000E+00], // 2,402,1:3
    [  0.374451997688500E+01,  0.227807580420000E+01,  0.000000000000000E+00], // 2,403,1:3
    [  0.417324467053200E+01,  0.583574785847700E+01,  0.000000000000000E+00], // 2,404,1:3
    [  0.591060142885000E+01,  0.583889819390200E+01,  0.000000000000000E+00], // 2,405,1:3
    [  0.248805007823900E+01,  0.112221233785800E+01,  0.000000000000000E+00], // 2,406,1:3
    [  0.112236365288300E+01,  0.918225099641600E+00,  0.000000000000000E+00], // 2,407,1:3
    [  0.495197372490400E+01,  0.517476197326600E+01,  0.000000000000000E+00], // 2,408,1:3
    [  0.511705784551300E+01,  0.338161102063900E+01,  0.000000000000000E+00], // 2,409,1:3
    [  0.610415918047600E+01,  0.354619372392200E+01,  0.000000000000000E+00], // 2,410,1:3
    [  0.118493342982900E+01,  0.453320319793400E+01,  0.000000000000000E+00], // 2,411,1:3
    [  0.350528208610500E+01,  0.275616819861600E+01,  0.000000000000000E+00], // 2,412,1:3
    [  0.228665108814100E+01,  0.193439546991800E+01,  0.000000000000000E+00], // 2,413,1:3
    [  0.187181677548200E+00,  0.714992097110900E+00,  0.000000000000000E+00], // 2,414,1:3
    [  0.314325175543100E+01,  0.489981949315400E+01,  0.000000000000000E+00], // 2,415,1:3
    [  0.246216731601800E+01,  0.157241891511500E+01,  0.000000000000000E+00], // 2,416,1:3
    [  0.425637400468600E+01,  0.891219018048900E+00,  0.000000000000000E+00], // 2,417,1:3
    [  0.497036294142500E+01,  0.380082194005500E+01,  0.000000000000000E+00], // 2,418,1:3
    [  0.237265782489800E+01,  0.264471744002900E+01,  0.000000000000000E+00], // 2,419,1:3
    [  0.423265262772100E+01,  0.398779302017900E+01,  0.000000000000000E+00], // 2,420,1:3
    [  0.392574700113700E+00,  0.990882644076400E+00,  0.000000000000000E+00], // 2,421,1:3
    [  0.309347833044500E+01,  0.251614975222000E+01,  0.000000000000000E+00], // 2,422,1:3
    [  0.556094824821200E+01,  0.584919564211800E+01,  0.000000000000000E+00], // 2,423,1:3
    [  0.507279031007200E+01,  0.168166010016200E+01,  0.000000000000000E+00], // 2,424,1:3
    [  0.499853023109600E+01,  0.580414398773700E+00,  0.000000000000000E+00], // 2,425,1:3
    [  0.256173980217600E+01,  0.580076828012300E+01,  0.000000000000000E+00], // 2,426,1:3
    [  0.408742028411100E+01,  0.924111837021600E+00,  0.000000000000000E+00], // 2,427,1:3
    [  0.251504821795500E+01,  0.313977644573500E+01,  0.000000000000000E+00], // 2,428,1:3
    [  0.523532649744300E+01,  0.354944078298400E+01,  0.000000000000000E+00], // 2,429,1:3
    [  0.108820079579700E+01,  0.473554069631900E+01,  0.000000000000000E+00], // 2,430,1:3
    [  0.471062442481600E+01,  0.499828912456100E+01,  0.000000000000000E+00], // 2,431,1:3
    [  0.285797589644500E+00,  0.670951567110200E+00,  0.000000000000000E+00], // 2,432,1:3
    [  0.224161902081500E+01,  0.541097825728400E+01,  0.000000000000000E+00], // 2,433,1:3
    [  0.665157330527200E-01,  0.477831720782100E+01,  0.000000000000000E+00], // 2,434,1:3
    [  0.128513532458500E+01,  0.600902066222200E+01,  0.000000000000000E+00], // 2,435,1:3
    [  0.298122983453000E+00,  0.501044977714700E+01,  0.000000000000000E+00], // 2,436,1:3
    [  0.612247072618900E+01,  0.598094376880900E+01,  0.000000000000000E+00], // 2,437,1:3
    [  0.425108714894700E+01,  0.267996511046800E+01,  0.000000000000000E+00], // 2,438,1:3
    [  0.346507046079000E+01,  0.189423114881000E+01,  0.000000000000000E+00], // 2,439,1:3
    [  0.579160381535000E+01,  0.422075295078000E+01,  0.000000000000000E+00], // 2,440,1:3
    [  0.414248377294100E+01,  0.257178394061700E+01,  0.000000000000000E+00], // 2,441,1:3
    [  0.210190188949600E+01,  0.516976599711900E+00,  0.000000000000000E+00], // 2,442,1:3
    [  0.152668945695900E+01,  0.623907826457900E+01,  0.000000000000000E+00], // 2,443,1:3
    [  0.239768423609500E+01,  0.203118441267700E+01,  0.000000000000000E+00], // 2,444,1:3
    [  0.575192945678700E+00,  0.826607998597900E+00,  0.000000000000000E+00], // 2,445,1:3
    [  0.559546435292600E+01,  0.881935052200800E+00,  0.000000000000000E+00], // 2,446,1:3
    [  0.509268949065500E+01,  0.352094417778900E+01,  0.000000000000000E+00], // 2,447,1:3
    [  0.444436352785100E+01,  0.155143190867100E+01,  0.000000000000000E+00], // 2,448,1:3
    [  0.310825168766100E+01,  0.417861014741200E+01,  0.000000000000000E+00], // 2,449,1:3
    [  0.260813386107900E+01,  0.150676400015700E+01,  0.000000000000000E+00], // 2,450,1:3
    [  0.363971775338400E+01,  0.211825061178200E+01,  0.000000000000000E+00], // 2,451,1:3
    [  0.174189844570700E+00,  0.336325526167800E+01,  0.000000000000000E+00], // 2,452,1:3
    [  0.390222564672400E+01,  0.420042395646000E+00,  0.000000000000000E+00], // 2,453,1:3
    [  0.497113125073100E+01,  0.233136258248700E+01,  0.000000000000000E+00], // 2,454,1:3
    [  0.167746235711000E+01,  0.340027402699200E+01,  0.000000000000000E+00], // 2,455,1:3
    [  0.423625960400600E+01,  0.106605123072400E+00,  0.000000000000000E+00], // 2,456,1:3
    [  0.592681499868700E+01,  0.277906648797900E+01,  0.000000000000000E+00], // 2,457,1:3
    [  0.434964335196200E+01,  0.995145069184000E+00,  0.000000000000000E+00], // 2,458,1:3
    [  0.570094048270100E+01,  0.640244736581700E+00,  0.000000000000000E+00], // 2,459,1:3
    [  0.660128636343000E+00,  0.230352421470500E+00,  0.000000000000000E+00], // 2,460,1:3
    [  0.221109859275200E+01,  0.616462265504800E+01,  0.000000000000000E+00], // 2,461,1:3
    [  0.494248855112900E+01,  0.395456118558000E+01,  0.000000000000000E+00], // 2,462,1:3
    [  0.145223385638600E+01,  0.202828630898400E+01,  0.000000000000000E+00], // 2,463,1:3
    [  0.552535772143900E+01,  0.230404066612800E+01,  0.000000000000000E+00], // 2,464,1:3
    [  0.410879428362400E+01,  0.253846105728000E+01,  0.000000000000000E+00], // 2,465,1:3
    [  0.734433520998400E+00,  0.511105434815200E+01,  0.000000000000000E+00], // 2,466,1:3
    [  0.354121395136300E+01,  0.560113066660300E+01,  0.000000000000000E+00], // 2,467,1:3
    [  0.403109407215100E+01,  0.261434045341100E+01,  0.000000000000000E+00], // 2,468,1:3
    [  0.418513620360900E+01,  0.362472157726400E+01,  0.000000000000000E+00], // 2,469,1:3
    [  0.172048563686800E+01,  0.421456987900800E+01,  0.000000000000000E+00], // 2,470,1:3
    [  0.275861342031800E+01,  0.149691174470400E+00,  0.000000000000000E+00], // 2,471,1:3
    [  0.421668684209700E+01,  0.118781767192200E+01,  0.000000000000000E+00], // 2,472,1:3
    [  0.257506887663900E+00,  0.265570303585800E+01,  0.000000000000000E+00], // 2,473,1:3
    [  0.480084495675600E+00,  0.496989618484400E+01,  0.000000000000000E+00], // 2,474,1:3
    [  0.389675636155200E+00,  0.519246077692600E+01,  0.000000000000000E+00], // 2,475,1:3
    [  0.370080502355000E+00,  0.196035692305700E+01,  0.000000000000000E+00], // 2,476,1:3
    [  0.436457927663800E+01,  0.508242780906800E+01,  0.000000000000000E+00], // 2,477,1:3
    [  0.215656422211100E+01,  0.279377503727300E+01,  0.000000000000000E+00], // 2,478,1:3
    [  0.545401578523400E+01,  0.372614431140900E+01,  0.000000000000000E+00], // 2,479,1:3
    [  0.159777256217500E+01,  0.740408070893700E+00,  0.000000000000000E+00], // 2,480,1:3
    [  0.582409062146100E+01,  0.269744998057700E-01,  0.000000000000000E+00], // 2,481,1:3
    [  0.357877848283500E+01,  0.425329627633500E+01,  0.000000000000000E+00], // 2,482,1:3
    [  0.372436281242300E+01,  0.514807241235400E+01,  0.000000000000000E+00], // 2,483,1:3
    [  0.542242750793300E+01,  0.215358114829400E+01,  0.000000000000000E+00], // 2,484,1:3
    [  0.239610692443900E+01,  0.385275063435100E+01,  0.000000000000000E+00], // 2,485,1:3
    [  0.280402883868500E+01,  0.123323335627000E+01,  0.000000000000000E+00], // 2,486,1:3
    [  0.163881600624700E+01,  0.561048697676700E+01,  0.000000000000000E+00], // 2,487,1:3
    [  0.897900322447400E+00,  0.163962952412300E+01,  0.000000000000000E+00], // 2,488,1:3
    [  0.321042672551600E+01,  0.373710036858300E+01,  0.000000000000000E+00], // 2,489,1:3
    [  0.530802721162900E+01,  0.115841705447800E+00,  0.000000000000000E+00], // 2,490,1:3
    [  0.219514534107400E+01,  0.624350286279600E+00,  0.000000000000000E+00], // 2,491,1:3
    [  0.508118949158600E+01,  0.351037738238500E+01,  0.000000000000000E+00], // 2,492,1:3
    [  0.434517126444100E+01,  0.591612830229900E+01,  0.000000000000000E+00], // 2,493,1:3
    [  0.261306284799700E+01,  0.104226676345600E+01,  0.000000000000000E+00], // 2,494,1:3
    [  0.284676081768900E+01,  0.116678843570000E+01,  0.000000000000000E+00], // 2,495,1:3
    [  0.492136098941200E+01,  0.325472611490100E+01,  0.000000000000000E+00], // 2,496,1:3
    [  0.113036011745400E+00,  0.168721059853000E+01,  0.000000000000000E+00], // 2,497,1:3
    [  0.422819523227800E+01,  0.265754178679400E+01,  0.000000000000000E+00], // 2,498,1:3
    [  0.300572181160400E+00,  0.501308980581900E+01,  0.000000000000000E+00], // 2,499,1:3
    [  0.783012562120300E+00,  0.549531542841800E+01,  0.000000000000000E+00], // 2,500,1:3
    [  0.380779294271500E+01,  0.223698996650500E+01,  0.000000000000000E+00], // 2,501,1:3
  ],
  [
    [  0.628307585044600E+01,  0.628307585044600E+01,  0.843346615813100E+02], // 3,1,1:3
    [  0.125661517008900E+02,  0.000000000000000E+00,  0.550755324037400E+01], // 3,2,1:3
    [  0.000000000000000E+00,  0.125661517008900E+02,  0.522369390622200E+01], // 3,3,1:3
    [  0.188492275513400E+02,  0.188492275513400E+02,  0.235286615350600E+01], // 3,4,1:3
    [  0.839968473185700E+02,  0.839968473185700E+02,  0.157734354343400E+01], // 3,5,1:3
    [  0.529690972111800E+00,  0.529690972111800E+00,  0.104774731175500E+01], // 3,6,1:3
    [  0.157734354343400E+01,  0.157734354343400E+01,  0.585647769088900E+01], // 3,7,1:3
    [  0.627955269082400E+01,  0.627955269082400E+01,  0.628307585044600E+01], // 3,8,1:3
    [  0.628659901006800E+01,  0.628659901006800E+01,  0.943776293731300E+01], // 3,9,1:3
    [  0.235286615350600E+01,  0.235286615350600E+01,  0.102132855473900E+02], // 3,10,1:3
    [  0.522369390622200E+01,  0.522369390622200E+01,  0.141434952443300E+02], // 3,11,1:3
    [  0.120364607287800E+02,  0.120364607287800E+02,  0.681276682255800E+01], // 3,12,1:3
    [  0.102132855473900E+02,  0.102132855473900E+02,  0.469400293411000E+01], // 3,13,1:3
    [  0.105938194422400E+01,  0.105938194422400E+01,  0.710928813549300E+02], // 3,14,1:3
    [  0.575338487833400E+01,  0.398149018989300E+00,  0.575338487833400E+01], // 3,15,1:3
    [  0.398149018989300E+00,  0.575338487833400E+01,  0.708489678380800E+01], // 3,16,1:3
    [  0.470573230701200E+01,  0.470573230701200E+01,  0.627596239577800E+01], // 3,17,1:3
    [  0.681276682255800E+01,  0.681276682255800E+01,  0.662089011318800E+01], // 3,18,1:3
    [  0.588492683145600E+01,  0.588492683145600E+01,  0.529690972111800E+00], // 3,19,1:3
    [  0.625677752715600E+01,  0.625677752715600E+01,  0.167621575850900E+03], // 3,20,1:3
    [  0.630937417373600E+01,  0.630937417373600E+01,  0.180737049412700E+02], // 3,21,1:3
    [  0.668122486943500E+01,  0.550755324037400E+01,  0.470573230701200E+01], // 3,22,1:3
    [  0.775522610072000E+00,  0.668122486943500E+01,  0.630937417373600E+01], // 3,23,1:3
    [  0.141434952443300E+02,  0.775522610072000E+00,  0.588492683145600E+01], // 3,24,1:3
    [  0.786041939388000E+01,  0.141434952443300E+02,  0.668122486943500E+01], // 3,25,1:3
    [  0.115067697566700E+02,  0.786041939388000E+01,  0.548677781246700E+01], // 3,26,1:3
    [  0.705859846051800E+01,  0.115067697566700E+02,  0.786041939388000E+01], // 3,27,1:3
    [  0.469400293411000E+01,  0.705859846051800E+01,  0.133679726342500E+02], // 3,28,1:3
    [  0.121680026819000E+02,  0.469400293411000E+01,  0.393020969694000E+01], // 3,29,1:3
    [  0.709933049012600E+00,  0.121680026819000E+02,  0.315468708686800E+01], // 3,30,1:3
    [  0.796298037978600E+00,  0.709933049012600E+00,  0.105938194422400E+01], // 3,31,1:3
    [  0.548677781246700E+01,  0.796298037978600E+00,  0.606977677066700E+01], // 3,32,1:3
    [  0.628300871502100E+01,  0.628314298587000E+01,  0.121940329146200E+02], // 3,33,1:3
    [  0.628314298587000E+01,  0.628300871502100E+01,  0.109770787845600E+02], // 3,34,1:3
    [  0.251323034017800E+02,  0.251323034017800E+02,  0.649637493022400E+01], // 3,35,1:3
    [  0.117906290908200E+02,  0.117906290908200E+02,  0.220039146382000E+02], // 3,36,1:3
    [  0.177898456071100E+02,  0.548677781246700E+01,  0.564317861111100E+01], // 3,37,1:3
    [  0.707937388842400E+01,  0.177898456071100E+02,  0.863594200395200E+01], // 3,38,1:3
    [  0.373876145370700E+01,  0.707937388842400E+01,  0.334061243471700E+01], // 3,39,1:3
    [  0.213299079778300E+00,  0.373876145370700E+01,  0.120364607287800E+02], // 3,40,1:3
    [  0.109770787845600E+02,  0.213299079778300E+00,  0.117906290908200E+02], // 3,41,1:3
    [  0.882739024718500E+01,  0.943776293731300E+01,  0.398149018989300E+00], // 3,42,1:3
    [  0.550755324037400E+01,  0.882739024718500E+01,  0.508862879347800E+01], // 3,43,1:3
    [  0.158907291633500E+01,  0.158907291633500E+01,  0.254431439673900E+01], // 3,44,1:3
    [  0.117698536629100E+02,  0.117698536629100E+02,  0.172981823311900E+02], // 3,45,1:3
    [  0.626230042253900E+01,  0.626230042253900E+01,  0.705859846051800E+01], // 3,46,1:3
    [  0.630385127835200E+01,  0.630385127835200E+01,  0.259341243351400E+02], // 3,47,1:3
    [  0.167283761588100E+03,  0.711345466790000E-02,  0.156475290248000E+03], // 3,48,1:3
    [  0.334061243471700E+01,  0.167283761588100E+03,  0.373876145370700E+01], // 3,49,1:3
    [  0.711345466790000E-02,  0.606977677066700E+01,  0.922553926617400E+01], // 3,50,1:3
    [  0.413691047269600E+01,  0.334061243471700E+01,  0.416431196199900E+01], // 3,51,1:3
    [  0.606977677066700E+01,  0.413691047269600E+01,  0.842924122819500E+01], // 3,52,1:3
    [  0.649637493022400E+01,  0.649637493022400E+01,  0.000000000000000E+00], // 3,53,1:3
    [  0.943776293731300E+01,  0.109770787845600E+02,  0.707937388842400E+01], // 3,54,1:3
    [  0.119444705696800E+01,  0.119444705696800E+01,  0.104473878124400E+02], // 3,55,1:3
    [  0.628209533460500E+01,  0.628209533460500E+01,  0.115067697566700E+02], // 3,56,1:3
    [  0.628405636628600E+01,  0.628405636628600E+01,  0.110151064807500E+02], // 3,57,1:3
    [  0.629018930511400E+01,  0.629018930511400E+01,  0.260879031406000E+02], // 3,58,1:3
    [  0.627596239577800E+01,  0.627596239577800E+01,  0.298643340320800E+02], // 3,59,1:3
    [  0.612765556764300E+01,  0.612765556764300E+01,  0.473203063030200E+01], // 3,60,1:3
    [  0.643849613324900E+01,  0.643849613324900E+01,  0.803109220920600E+01], // 3,61,1:3
    [  0.315468708686800E+01,  0.315468708686800E+01,  0.796298037978600E+00], // 3,62,1:3
    [  0.312838876357800E+01,  0.801820933361900E+00,  0.214616537775000E+01], // 3,63,1:3
    [  0.801820933361900E+00,  0.312838876357800E+01,  0.212283920281300E+02], // 3,64,1:3
    [  0.842924122819500E+01,  0.708489678380800E+01,  0.294246341572800E+01], // 3,65,1:3
    [  0.133679726342500E+02,  0.123528526211100E+02,  0.775522610072000E+00], // 3,66,1:3
    [  0.123528526211100E+02,  0.118562186518800E+02,  0.125661517008900E+02], // 3,67,1:3
    [  0.118562186518800E+02,  0.842924122819500E+01,  0.801820933361900E+00], // 3,68,1:3
    [  0.172601546350000E+02,  0.254431439673900E+01,  0.469047977448800E+01], // 3,69,1:3
    [  0.548125491708400E+01,  0.548125491708400E+01,  0.882739024718500E+01], // 3,70,1:3
    [  0.922553926617400E+01,  0.922553926617400E+01,  0.213299079778300E+00], // 3,71,1:3
    [  0.585647769088900E+01,  0.172601546350000E+02,  0.648098055044900E+02], // 3,72,1:3
    [  0.254431439673900E+01,  0.426598159556600E+00,  0.337945437290200E+02], // 3,73,1:3
    [  0.426598159556600E+00,  0.214616537775000E+01,  0.413691047269600E+01], // 3,74,1:3
    [  0.393020969694000E+01,  0.416431196199900E+01,  0.312838876357800E+01], // 3,75,1:3
    [  0.214616537775000E+01,  0.585647769088900E+01,  0.521658045155400E+01], // 3,76,1:3
    [  0.416431196199900E+01,  0.125696748605100E+02,  0.426598159556600E+00], // 3,77,1:3
    [  0.508862879347800E+01,  0.180737049412700E+02,  0.157208387877600E+02], // 3,78,1:3
    [  0.125696748605100E+02,  0.262983232899000E-01,  0.629018930511400E+01], // 3,79,1:3
    [  0.180737049412700E+02,  0.453505949168500E+01,  0.523080736089000E+01], // 3,80,1:3
    [  0.262983232899000E-01,  0.393020969694000E+01,  0.239762204517500E+03], // 3,81,1:3
    [  0.453505949168500E+01,  0.125626285412700E+02,  0.164963613978300E+02], // 3,82,1:3
    [  0.113717046439200E+02,  0.508862879347800E+01,  0.158907291633500E+01], // 3,83,1:3
    [  0.125626285412700E+02,  0.125590382462200E+02,  0.763294319021700E+01], // 3,84,1:3
    [  0.125590382462200E+02,  0.133679726342500E+02,  0.620681001418300E+01], // 3,85,1:3
    [  0.708489678380800E+01,  0.113717046439200E+02,  0.251586017250700E+02], // 3,86,1:3
    [  0.714306956176700E+02,  0.714306956176700E+02,  0.121680026819000E+02], // 3,87,1:3
    [  0.803109220920600E+01,  0.174801635876000E+01,  0.723479417122700E+01], // 3,88,1:3
    [  0.174801635876000E+01,  0.183195365792300E+02,  0.734245779466900E+01], // 3,89,1:3
    [  0.183195365792300E+02,  0.493320851067500E+01,  0.962368828516300E+01], // 3,90,1:3
    [  0.493320851067500E+01,  0.747752290741400E+01,  0.643849613324900E+01], // 3,91,1:3
    [  0.104473878124400E+02,  0.104473878124400E+02,  0.149453161776900E+02], // 3,92,1:3
    [  0.747752290741400E+01,  0.803109220920600E+01,  0.866224032724100E+01], // 3,93,1:3
    [  0.294246341572800E+01,  0.863594200395200E+01,  0.119444705696800E+01], // 3,94,1:3
    [  0.863594200395200E+01,  0.294246341572800E+01,  0.377247534259600E+02], // 3,95,1:3
    [  0.172981823311900E+02,  0.156137475985300E+03,  0.586359114555700E+01], // 3,96,1:3
    [  0.156137475985300E+03,  0.159259607595700E+01,  0.196510484847000E+02], // 3,97,1:3
    [  0.159259607595700E+01,  0.130958426730000E+02,  0.723867558926300E+01], // 3,98,1:3
    [  0.130958426730000E+02,  0.164963613978300E+02,  0.683664515223800E+01], // 3,99,1:3
    [  0.164963613978300E+02,  0.172981823311900E+02,  0.584936423622100E+01], // 3,100,1:3
    [  0.763294319021700E+01,  0.204265710947700E+02,  0.613351251906500E+01], // 3,101,1:3
    [  0.204265710947700E+02,  0.763294319021700E+01,  0.453505949168500E+01], // 3,102,1:3
    [  0.121395535413300E+02,  0.121395535413300E+02,  0.747752290741400E+01], // 3,103,1:3
    [  0.533135752966400E+01,  0.533135752966400E+01,  0.113717046439200E+02], // 3,104,1:3
    [  0.734245779466900E+01,  0.167304636628900E+02,  0.250908490120400E+03], // 3,105,1:3
    [  0.627948555540000E+01,  0.734245779466900E+01,  0.174801635876000E+01], // 3,106,1:3
    [  0.628666614549200E+01,  0.627948555540000E+01,  0.822391669578000E+02], // 3,107,1:3
    [  0.723479417122700E+01,  0.628666614549200E+01,  0.337814262742100E+00], // 3,108,1:3
    [  0.151104660976300E+02,  0.151104660976300E+02,  0.290888114220100E+02], // 3,109,1:3
    [  0.109888081574600E+02,  0.109888081574600E+02,  0.167304636628900E+02], // 3,110,1:3
    [  0.572950654865300E+01,  0.157208387877600E+02,  0.154379795624500E+03], // 3,111,1:3
    [  0.962368828516300E+01,  0.572950654865300E+01,  0.177898456071100E+02], // 3,112,1:3
    [  0.614801073770100E+01,  0.962368828516300E+01,  0.204265710947700E+02], // 3,113,1:3
    [  0.683664515223800E+01,  0.723479417122700E+01,  0.416549631229000E+02], // 3,114,1:3
    [  0.157208387877600E+02,  0.614801073770100E+01,  0.773759572053800E+02], // 3,115,1:3
    [  0.641814096319000E+01,  0.641814096319000E+01,  0.235812581816400E+02], // 3,116,1:3
    [  0.147123170786400E+02,  0.211876388844700E+01,  0.330190211189500E+02], // 3,117,1:3
    [  0.211876388844700E+01,  0.147123170786400E+02,  0.954809471841700E+02], // 3,118,1:3
    [  0.134986733977100E+01,  0.134986733977100E+01,  0.839968473185700E+02], // 3,119,1:3
    [  0.599921651629400E+01,  0.683664515223800E+01,  0.455851728198400E+02], // 3,120,1:3
    [  0.604034711426000E+01,  0.599921651629400E+01,  0.780515857308600E+02], // 3,121,1:3
    [  0.656693518459700E+01,  0.604034711426000E+01,  0.521758062812000E+02], // 3,122,1:3
    [  0.564317861111100E+01,  0.656693518459700E+01,  0.150192214397500E+03], // 3,123,1:3
    [  0.652580458663200E+01,  0.652580458663200E+01,  0.906177374317500E+02], // 3,124,1:3
    [  0.212283920281300E+02,  0.723867558926300E+01,  0.495153825167800E+02], // 3,125,1:3
    [  0.469047977448800E+01,  0.125398533776000E+02,  0.161338500000400E+03], // 3,126,1:3
    [  0.125398533776000E+02,  0.212283920281300E+02,  0.731883759784400E+02], // 3,127,1:3
    [  0.109735556249300E+02,  0.624504815425400E+01,  0.143233510021600E+03], // 3,128,1:3
    [  0.624504815425400E+01,  0.632110354663700E+01,  0.323049118787100E+03], // 3,129,1:3
    [  0.632110354663700E+01,  0.532747611162900E+01,  0.233479128667100E+03], // 3,130,1:3
    [  0.532747611162900E+01,  0.110151064807500E+02,  0.173904651701300E+03], // 3,131,1:3
    [  0.536804426779700E+00,  0.564317861111100E+01,  0.162048433049400E+03], // 3,132,1:3
    [  0.235432304854500E+02,  0.536804426779700E+00,  0.975764418076800E+02], // 3,133,1:3
    [  0.129643007198800E+02,  0.235432304854500E+02,  0.169717070474400E+03], // 3,134,1:3
    [  0.951718320781700E+00,  0.129643007198800E+02,  0.226520424291200E+03], // 3,135,1:3
    [  0.199074509494700E+01,  0.199074509494700E+01,  0.334195404390000E+03], // 3,136,1:3
    [  0.955599738816900E+00,  0.951718320781700E+00,  0.311902833184200E+03], // 3,137,1:3
    [  0.522577517443900E+00,  0.955599738816900E+00,  0.000000000000000E+00], // 3,138,1:3
    [  0.240729214575600E+02,  0.240729214575600E+02,  0.000000000000000E+00], // 3,139,1:3
    [  0.220039146382000E+02,  0.522577517443900E+00,  0.000000000000000E+00], // 3,140,1:3
    [  0.523080736089000E+01,  0.109735556249300E+02,  0.000000000000000E+00], // 3,141,1:3
    [  0.184226293917800E+02,  0.220039146382000E+02,  0.000000000000000E+00], // 3,142,1:3
    [  0.155420282803100E+00,  0.143141680596500E+02,  0.000000000000000E+00], // 3,143,1:3
    [  0.184510785323500E+02,  0.184226293917800E+02,  0.000000000000000E+00], // 3,144,1:3
    [  0.639897239334900E+00,  0.155420282803100E+00,  0.000000000000000E+00], // 3,145,1:3
    [  0.627755295506200E+01,  0.184510785323500E+02,  0.000000000000000E+00], // 3,146,1:3
    [  0.628859874582900E+01,  0.521658045155400E+01,  0.000000000000000E+00], // 3,147,1:3
    [  0.155104522014400E+01,  0.639897239334900E+00,  0.000000000000000E+00], // 3,148,1:3
    [  0.521658045155400E+01,  0.627755295506200E+01,  0.000000000000000E+00], // 3,149,1:3
    [  0.565029206577900E+01,  0.628859874582900E+01,  0.000000000000000E+00], // 3,150,1:3
    [  0.103092812555200E+00,  0.469047977448800E+01,  0.000000000000000E+00], // 3,151,1:3
    [  0.143141680596500E+02,  0.155104522014400E+01,  0.000000000000000E+00], // 3,152,1:3
    [  0.553569301792400E+00,  0.103092812555200E+00,  0.000000000000000E+00], // 3,153,1:3
    [  0.260879031406000E+02,  0.523080736089000E+01,  0.000000000000000E+00], // 3,154,1:3
    [  0.846724758440500E+02,  0.565029206577900E+01,  0.000000000000000E+00], // 3,155,1:3
    [  0.239424390254800E+03,  0.777137714681200E+02,  0.000000000000000E+00], // 3,156,1:3
    [  0.777137714681200E+02,  0.260879031406000E+02,  0.000000000000000E+00], // 3,157,1:3
    [  0.617998303789000E+01,  0.553569301792400E+00,  0.000000000000000E+00], // 3,158,1:3
    [  0.902799231690100E+02,  0.846724758440500E+02,  0.000000000000000E+00], // 3,159,1:3
    [  0.638616866300100E+01,  0.239424390254800E+03,  0.000000000000000E+00], // 3,160,1:3
    [  0.691585963511300E+01,  0.473203063030200E+01,  0.000000000000000E+00], // 3,161,1:3
    [  0.628297062850600E+01,  0.617998303789000E+01,  0.000000000000000E+00], // 3,162,1:3
    [  0.628318107238600E+01,  0.902799231690100E+02,  0.000000000000000E+00], // 3,163,1:3
    [  0.625462670987800E+01,  0.638616866300100E+01,  0.000000000000000E+00], // 3,164,1:3
    [  0.787567192640300E+01,  0.691585963511300E+01,  0.000000000000000E+00], // 3,165,1:3
    [  0.631152499101300E+01,  0.628297062850600E+01,  0.000000000000000E+00], // 3,166,1:3
    [  0.363462098988700E+01,  0.628318107238600E+01,  0.000000000000000E+00], // 3,167,1:3
    [  0.251586017250700E+02,  0.625462670987800E+01,  0.000000000000000E+00], // 3,168,1:3
    [  0.576049833300200E+01,  0.787567192640300E+01,  0.000000000000000E+00], // 3,169,1:3
    [  0.723867558926300E+01,  0.631152499101300E+01,  0.000000000000000E+00], // 3,170,1:3
    [  0.110151064807500E+02,  0.363462098988700E+01,  0.000000000000000E+00], // 3,171,1:3
    [  0.670967401000200E+01,  0.576049833300200E+01,  0.000000000000000E+00], // 3,172,1:3
    [  0.680565336789000E+01,  0.251586017250700E+02,  0.000000000000000E+00], // 3,173,1:3
    [  0.125924500241800E+02,  0.670967401000200E+01,  0.000000000000000E+00], // 3,174,1:3
    [  0.106649539889200E+01,  0.680565336789000E+01,  0.000000000000000E+00], // 3,175,1:3
    [  0.991769684033200E+01,  0.106649539889200E+01,  0.000000000000000E+00], // 3,176,1:3
    [  0.119262544615600E+02,  0.586359114555700E+01,  0.000000000000000E+00], // 3,177,1:3
    [  0.747816656905000E-01,  0.991769684033200E+01,  0.000000000000000E+00], // 3,178,1:3
    [  0.125662188363200E+02,  0.139160190406600E+02,  0.000000000000000E+00], // 3,179,1:3
    [  0.429233075549900E+01,  0.125662188363200E+02,  0.000000000000000E+00], // 3,180,1:3
    [  0.133416743109600E+02,  0.133416743109600E+02,  0.000000000000000E+00], // 3,181,1:3
    [  0.105754066059400E+02,  0.162007726907800E+02,  0.000000000000000E+00], // 3,182,1:3
    [  0.620829418475500E+01,  0.747816656905000E-01,  0.000000000000000E+00], // 3,183,1:3
    [  0.180529295133600E+02,  0.180529295133600E+02,  0.000000000000000E+00], // 3,184,1:3
    [  0.352315962180100E-02,  0.620829418475500E+01,  0.000000000000000E+00], // 3,185,1:3
    [  0.596668395811200E+01,  0.596668395811200E+01,  0.000000000000000E+00], // 3,186,1:3
    [  0.635785751613600E+01,  0.635785751613600E+01,  0.000000000000000E+00], // 3,187,1:3
    [  0.659946774277900E+01,  0.352315962180100E-02,  0.000000000000000E+00], // 3,188,1:3
    [  0.601999194420100E+01,  0.127215719836900E+02,  0.000000000000000E+00], // 3,189,1:3
    [  0.670256055533400E+01,  0.659946774277900E+01,  0.000000000000000E+00], // 3,190,1:3
    [  0.314153792522300E+02,  0.601999194420100E+01,  0.000000000000000E+00], // 3,191,1:3
    [  0.250570675857700E+03,  0.125924500241800E+02,  0.000000000000000E+00], // 3,192,1:3
    [  0.167304636628900E+02,  0.670256055533400E+01,  0.000000000000000E+00], // 3,193,1:3
    [  0.654615975669100E+01,  0.105754066059400E+02,  0.000000000000000E+00], // 3,194,1:3
    [  0.127215719836900E+02,  0.314153792522300E+02,  0.000000000000000E+00], // 3,195,1:3
    [  0.149453161776900E+02,  0.250570675857700E+03,  0.000000000000000E+00], // 3,196,1:3
    [  0.473203063030200E+01,  0.654615975669100E+01,  0.000000000000000E+00], // 3,197,1:3
    [  0.586359114555700E+01,  0.238889411393600E+01,  0.000000000000000E+00], // 3,198,1:3
    [  0.238889411393600E+01,  0.120293472741100E+02,  0.000000000000000E+00], // 3,199,1:3
    [  0.120293472741100E+02,  0.125660845654700E+02,  0.000000000000000E+00], // 3,200,1:3
    [  0.125660845654700E+02,  0.133624497388700E+02,  0.000000000000000E+00], // 3,201,1:3
    [  0.133624497388700E+02,  0.290888114220100E+02,  0.000000000000000E+00], // 3,202,1:3
    [  0.290888114220100E+02,  0.149453161776900E+02,  0.000000000000000E+00], // 3,203,1:3
    [  0.139160190406600E+02,  0.607689022533500E+01,  0.000000000000000E+00], // 3,204,1:3
    [  0.607689022533500E+01,  0.626272068038700E+01,  0.000000000000000E+00], // 3,205,1:3
    [  0.470111638877800E+01,  0.470111638877800E+01,  0.000000000000000E+00], // 3,206,1:3
    [  0.626272068038700E+01,  0.630343102050400E+01,  0.000000000000000E+00], // 3,207,1:3
    [  0.630343102050400E+01,  0.648926147555600E+01,  0.000000000000000E+00], // 3,208,1:3
    [  0.648926147555600E+01,  0.120435741834500E+02,  0.000000000000000E+00], // 3,209,1:3
    [  0.120435741834500E+02,  0.459091012155500E+01,  0.000000000000000E+00], // 3,210,1:3
    [  0.574627142366600E+01,  0.149563331381000E+00,  0.000000000000000E+00], // 3,211,1:3
    [  0.149563331381000E+00,  0.196510484847000E+02,  0.000000000000000E+00], // 3,212,1:3
    [  0.135217514397100E+02,  0.135178700216700E+02,  0.000000000000000E+00], // 3,213,1:3
    [  0.459091012155500E+01,  0.116247475677900E+01,  0.000000000000000E+00], // 3,214,1:3
    [  0.116247475677900E+01,  0.627919443241000E+01,  0.000000000000000E+00], // 3,215,1:3
    [  0.627919443241000E+01,  0.628695726848100E+01,  0.000000000000000E+00], // 3,216,1:3
    [  0.628695726848100E+01,  0.181392945023200E+02,  0.000000000000000E+00], // 3,217,1:3
    [  0.181392945023200E+02,  0.468688947944200E+01,  0.000000000000000E+00], // 3,218,1:3
    [  0.468688947944200E+01,  0.100218373041500E+02,  0.000000000000000E+00], // 3,219,1:3
    [  0.100218373041500E+02,  0.429233075549900E+01,  0.000000000000000E+00], // 3,220,1:3
    [  0.242728736186200E+00,  0.951431329214300E+02,  0.000000000000000E+00], // 3,221,1:3
    [  0.951431329214300E+02,  0.603724421248500E+01,  0.000000000000000E+00], // 3,222,1:3
    [  0.135178700216700E+02,  0.242728736186200E+00,  0.000000000000000E+00], // 3,223,1:3
    [  0.603724421248500E+01,  0.131197210026800E+02,  0.000000000000000E+00], // 3,224,1:3
    [  0.230135395133400E+02,  0.126692445134500E+02,  0.000000000000000E+00], // 3,225,1:3
    [  0.126692445134500E+02,  0.652890748840600E+01,  0.000000000000000E+00], // 3,226,1:3
    [  0.652890748840600E+01,  0.135217514397100E+02,  0.000000000000000E+00], // 3,227,1:3
    [  0.681988027722500E+01,  0.866224032724100E+01,  0.000000000000000E+00], // 3,228,1:3
    [  0.651476197672300E+02,  0.681988027722500E+01,  0.000000000000000E+00], // 3,229,1:3
    [  0.207754279066000E-01,  0.110206267223100E+00,  0.000000000000000E+00], // 3,230,1:3
    [  0.627243923615600E+01,  0.651476197672300E+02,  0.000000000000000E+00], // 3,231,1:3
    [  0.629371246473500E+01,  0.574627142366600E+01,  0.000000000000000E+00], // 3,232,1:3
    [  0.176547804943700E+02,  0.627243923615600E+01,  0.000000000000000E+00], // 3,233,1:3
    [  0.110206267223100E+00,  0.629371246473500E+01,  0.000000000000000E+00], // 3,234,1:3
    [  0.105226848955600E+01,  0.230135395133400E+02,  0.000000000000000E+00], // 3,235,1:3
    [  0.131197210026800E+02,  0.176547804943700E+02,  0.000000000000000E+00], // 3,236,1:3
    [  0.101772575869600E+02,  0.207754279066000E-01,  0.000000000000000E+00], // 3,237,1:3
    [  0.188755258746300E+02,  0.105226848955600E+01,  0.000000000000000E+00], // 3,238,1:3
    [  0.762658362624000E-01,  0.632783784667000E+00,  0.000000000000000E+00], // 3,239,1:3
    [  0.196510484847000E+02,  0.762658362624000E-01,  0.000000000000000E+00], // 3,240,1:3
    [  0.601646878457900E+01,  0.114996563020000E+02,  0.000000000000000E+00], // 3,241,1:3
    [  0.259341243351400E+02,  0.601646878457900E+01,  0.000000000000000E+00], // 3,242,1:3
    [  0.941146461402400E+01,  0.330190211189500E+02,  0.000000000000000E+00], // 3,243,1:3
    [  0.330190211189500E+02,  0.941146461402400E+01,  0.000000000000000E+00], // 3,244,1:3
    [  0.632783784667000E+00,  0.127794507806700E+02,  0.000000000000000E+00], // 3,245,1:3
    [  0.389418173651000E+01,  0.654968291631300E+01,  0.000000000000000E+00], // 3,246,1:3
    [  0.127794507806700E+02,  0.186359284715600E+02,  0.000000000000000E+00], // 3,247,1:3
    [  0.654968291631300E+01,  0.237916447679600E+01,  0.000000000000000E+00], // 3,248,1:3
    [  0.186359284715600E+02,  0.125732651555600E+02,  0.000000000000000E+00], // 3,249,1:3
    [  0.237916447679600E+01,  0.188755258746300E+02,  0.000000000000000E+00], // 3,250,1:3
    [  0.162007726907800E+02,  0.182093303120000E+02,  0.000000000000000E+00], // 3,251,1:3
    [  0.114996563020000E+02,  0.259341243351400E+02,  0.000000000000000E+00], // 3,252,1:3
    [  0.125732651555600E+02,  0.512060109366700E+01,  0.000000000000000E+00], // 3,253,1:3
    [  0.182093303120000E+02,  0.699300889945800E+01,  0.000000000000000E+00], // 3,254,1:3
    [  0.699300889945800E+01,  0.381329181312000E-01,  0.000000000000000E+00], // 3,255,1:3
    [  0.243567807917100E+02,  0.243567807917100E+02,  0.000000000000000E+00], // 3,256,1:3
    [  0.381329181312000E-01,  0.172566314753800E+02,  0.000000000000000E+00], // 3,257,1:3
    [  0.245831637960200E+00,  0.245831637960200E+00,  0.000000000000000E+00], // 3,258,1:3
    [  0.611240303511900E+01,  0.611240303511900E+01,  0.000000000000000E+00], // 3,259,1:3
    [  0.542987953133300E+01,  0.124913700352000E+02,  0.000000000000000E+00], // 3,260,1:3
    [  0.124913700352000E+02,  0.624704789001600E+01,  0.000000000000000E+00], // 3,261,1:3
    [  0.624704789001600E+01,  0.645374866577200E+01,  0.000000000000000E+00], // 3,262,1:3
    [  0.645374866577200E+01,  0.542987953133300E+01,  0.000000000000000E+00], // 3,263,1:3
    [  0.629012216968900E+01,  0.629012216968900E+01,  0.000000000000000E+00], // 3,264,1:3
    [  0.631910381087600E+01,  0.631910381087600E+01,  0.000000000000000E+00], // 3,265,1:3
    [  0.827382094539200E+01,  0.827382094539200E+01,  0.000000000000000E+00], // 3,266,1:3
    [  0.627602953120200E+01,  0.177827321524500E+02,  0.000000000000000E+00], // 3,267,1:3
    [  0.125453762729800E+02,  0.627602953120200E+01,  0.000000000000000E+00], // 3,268,1:3
    [  0.125651711850500E+02,  0.125453762729800E+02,  0.000000000000000E+00], // 3,269,1:3
    [  0.625919752076500E+01,  0.125651711850500E+02,  0.000000000000000E+00], // 3,270,1:3
    [  0.630695418012600E+01,  0.224838485412200E+02,  0.000000000000000E+00], // 3,271,1:3
    [  0.177969590617800E+02,  0.625919752076500E+01,  0.000000000000000E+00], // 3,272,1:3
    [  0.177827321524500E+02,  0.630695418012600E+01,  0.000000000000000E+00], // 3,273,1:3
    [  0.617286958322300E+01,  0.177969590617800E+02,  0.000000000000000E+00], // 3,274,1:3
    [  0.169216572889100E+01,  0.206185625110400E+00,  0.000000000000000E+00], // 3,275,1:3
    [  0.220412534446200E+00,  0.169216572889100E+01,  0.000000000000000E+00], // 3,276,1:3
    [  0.825769812205400E+02,  0.220412534446200E+00,  0.000000000000000E+00], // 3,277,1:3
    [  0.639328211766900E+01,  0.825769812205400E+02,  0.000000000000000E+00], // 3,278,1:3
    [  0.155086151166200E+02,  0.101772575869600E+02,  0.000000000000000E+00], // 3,279,1:3
    [  0.206185625110400E+00,  0.949175677000500E+00,  0.000000000000000E+00], // 3,280,1:3
    [  0.949175677000500E+00,  0.639328211766900E+01,  0.000000000000000E+00], // 3,281,1:3
    [  0.390391137365000E+01,  0.480420920133300E+01,  0.000000000000000E+00], // 3,282,1:3
    [  0.626782331792200E+01,  0.155086151166200E+02,  0.000000000000000E+00], // 3,283,1:3
    [  0.629832838296900E+01,  0.390391137365000E+01,  0.000000000000000E+00], // 3,284,1:3
    [  0.264845486055900E+01,  0.617286958322300E+01,  0.000000000000000E+00], // 3,285,1:3
    [  0.149854400134800E+03,  0.626782331792200E+01,  0.000000000000000E+00], // 3,286,1:3
    [  0.369492308158900E+02,  0.629832838296900E+01,  0.000000000000000E+00], // 3,287,1:3
    [  0.480420920133300E+01,  0.557314280143300E+01,  0.000000000000000E+00], // 3,288,1:3
    [  0.125671322167300E+02,  0.264845486055900E+01,  0.000000000000000E+00], // 3,289,1:3
    [  0.114036769441100E+02,  0.149854400134800E+03,  0.000000000000000E+00], // 3,290,1:3
    [  0.228057355715700E+02,  0.369492308158900E+02,  0.000000000000000E+00], // 3,291,1:3
    [  0.783412107059000E+01,  0.114036769441100E+02,  0.000000000000000E+00], // 3,292,1:3
    [  0.278704313292500E+01,  0.125671322167300E+02,  0.000000000000000E+00], // 3,293,1:3
    [  0.628265559259800E+01,  0.783412107059000E+01,  0.000000000000000E+00], // 3,294,1:3
    [  0.628349610829400E+01,  0.119262544615600E+02,  0.000000000000000E+00], // 3,295,1:3
    [  0.172566314753800E+02,  0.228057355715700E+02,  0.000000000000000E+00], // 3,296,1:3
    [  0.124107314180900E+02,  0.278704313292500E+01,  0.000000000000000E+00], // 3,297,1:3
    [  0.628159167987400E+01,  0.628265559259800E+01,  0.000000000000000E+00], // 3,298,1:3
    [  0.628456002101800E+01,  0.628349610829400E+01,  0.000000000000000E+00], // 3,299,1:3
    [  0.124165883695100E+02,  0.124107314180900E+02,  0.000000000000000E+00], // 3,300,1:3
    [  0.109841922392200E+02,  0.628159167987400E+01,  0.000000000000000E+00], // 3,301,1:3
    [  0.109699653298900E+02,  0.628456002101800E+01,  0.000000000000000E+00], // 3,302,1:3
    [  0.159618637100300E+01,  0.124165883695100E+02,  0.000000000000000E+00], // 3,303,1:3
    [  0.406121914944300E+01,  0.159618637100300E+01,  0.000000000000000E+00], // 3,304,1:3
    [  0.161000685737700E+03,  0.613351251906500E+01,  0.000000000000000E+00], // 3,305,1:3
    [  0.119333679162200E+02,  0.168584824563900E+02,  0.000000000000000E+00], // 3,306,1:3
    [  0.846082864445300E+00,  0.406121914944300E+01,  0.000000000000000E+00], // 3,307,1:3
    [  0.853196319113200E+00,  0.161000685737700E+03,  0.000000000000000E+00], // 3,308,1:3
    [  0.584936423622100E+01,  0.846082864445300E+00,  0.000000000000000E+00], // 3,309,1:3
    [  0.557314280143300E+01,  0.389418173651000E+01,  0.000000000000000E+00], // 3,310,1:3
    [  0.866224032724100E+01,  0.853196319113200E+00,  0.000000000000000E+00], // 3,311,1:3
    [  0.123234229647100E+02,  0.156710817186700E+02,  0.000000000000000E+00], // 3,312,1:3
    [  0.125869271288000E+02,  0.125869271288000E+02,  0.000000000000000E+00], // 3,313,1:3
    [  0.533390017344500E+01,  0.119333679162200E+02,  0.000000000000000E+00], // 3,314,1:3
    [  0.117129553817800E+02,  0.123234229647100E+02,  0.000000000000000E+00], // 3,315,1:3
    [  0.977910856796600E+01,  0.490730201388900E+01,  0.000000000000000E+00], // 3,316,1:3
    [  0.188421140966700E+02,  0.188421140966700E+02,  0.000000000000000E+00], // 3,317,1:3
    [  0.521758062812000E+02,  0.521758062812000E+02,  0.000000000000000E+00], // 3,318,1:3
    [  0.104199863231400E+02,  0.142269093358000E-01,  0.000000000000000E+00], // 3,319,1:3
    [  0.615153389732300E+01,  0.235812581816400E+02,  0.000000000000000E+00], // 3,320,1:3
    [  0.188527507109600E+02,  0.115138832113400E+02,  0.000000000000000E+00], // 3,321,1:3
    [  0.433711614224500E+00,  0.104199863231400E+02,  0.000000000000000E+00], // 3,322,1:3
    [  0.628636219748100E+01,  0.615153389732300E+01,  0.000000000000000E+00], // 3,323,1:3
    [  0.627978950341000E+01,  0.188527507109600E+02,  0.000000000000000E+00], // 3,324,1:3
    [  0.490730201388900E+01,  0.433711614224500E+00,  0.000000000000000E+00], // 3,325,1:3
    [  0.117643307675300E+02,  0.628636219748100E+01,  0.000000000000000E+00], // 3,326,1:3
    [  0.142269093358000E-01,  0.627978950341000E+01,  0.000000000000000E+00], // 3,327,1:3
    [  0.124559454336700E+02,  0.117643307675300E+02,  0.000000000000000E+00], // 3,328,1:3
    [  0.641461780356800E+01,  0.124559454336700E+02,  0.000000000000000E+00], // 3,329,1:3
    [  0.115138832113400E+02,  0.641461780356800E+01,  0.000000000000000E+00], // 3,330,1:3
    [  0.606266331600000E+01,  0.135065112744300E+00,  0.000000000000000E+00], // 3,331,1:3
    [  0.349603271752100E+01,  0.109699653298900E+02,  0.000000000000000E+00], // 3,332,1:3
    [  0.283859334151600E+00,  0.606266331600000E+01,  0.000000000000000E+00], // 3,333,1:3
    [  0.310493001777500E+01,  0.532678671877700E+01,  0.000000000000000E+00], // 3,334,1:3
    [  0.613351251906500E+01,  0.310493001777500E+01,  0.000000000000000E+00], // 3,335,1:3
    [  0.408794405128300E+02,  0.408794405128300E+02,  0.000000000000000E+00], // 3,336,1:3
    [  0.224838485412200E+02,  0.584936423622100E+01,  0.000000000000000E+00], // 3,337,1:3
    [  0.158195946166700E+01,  0.158195946166700E+01,  0.000000000000000E+00], // 3,338,1:3
    [  0.938800586822100E+01,  0.650348838489200E+01,  0.000000000000000E+00], // 3,339,1:3
    [  0.532678671877700E+01,  0.173566837438600E+03,  0.000000000000000E+00], // 3,340,1:3
    [  0.650348838489200E+01,  0.124898858646300E+02,  0.000000000000000E+00], // 3,341,1:3
    [  0.173566837438600E+03,  0.267359452685100E+02,  0.000000000000000E+00], // 3,342,1:3
    [  0.135065112744300E+00,  0.246026124296700E+02,  0.000000000000000E+00], // 3,343,1:3
    [  0.124898858646300E+02,  0.417142541666600E+01,  0.000000000000000E+00], // 3,344,1:3
    [  0.267359452685100E+02,  0.533390017344500E+01,  0.000000000000000E+00], // 3,345,1:3
    [  0.417142541666600E+01,  0.723225152744600E+01,  0.000000000000000E+00], // 3,346,1:3
    [  0.246026124296700E+02,  0.322711304524400E+03,  0.000000000000000E+00], // 3,347,1:3
    [  0.723225152744600E+01,  0.938800586822100E+01,  0.000000000000000E+00], // 3,348,1:3
    [  0.322711304524400E+03,  0.554719925322300E+01,  0.000000000000000E+00], // 3,349,1:3
    [  0.554719925322300E+01,  0.728505617157000E+02,  0.000000000000000E+00], // 3,350,1:3
    [  0.728505617157000E+02,  0.188457043917200E+02,  0.000000000000000E+00], // 3,351,1:3
    [  0.108739859720000E+02,  0.972386275449400E+02,  0.000000000000000E+00], // 3,352,1:3
    [  0.188457043917200E+02,  0.427451822922200E+01,  0.000000000000000E+00], // 3,353,1:3
    [  0.972386275449400E+02,  0.349603271752100E+01,  0.000000000000000E+00], // 3,354,1:3
    [  0.624494293231400E+01,  0.624494293231400E+01,  0.000000000000000E+00], // 3,355,1:3
    [  0.292966153637800E+02,  0.292966153637800E+02,  0.000000000000000E+00], // 3,356,1:3
    [  0.427451822922200E+01,  0.632120876857700E+01,  0.000000000000000E+00], // 3,357,1:3
    [  0.632120876857700E+01,  0.123203200629300E+02,  0.000000000000000E+00], // 3,358,1:3
    [  0.123203200629300E+02,  0.701895244766800E+01,  0.000000000000000E+00], // 3,359,1:3
    [  0.172672680896700E+02,  0.147886664911200E+01,  0.000000000000000E+00], // 3,360,1:3
    [  0.701895244766800E+01,  0.692297308978100E+01,  0.000000000000000E+00], // 3,361,1:3
    [  0.149190178544000E+02,  0.233141314404400E+03,  0.000000000000000E+00], // 3,362,1:3
    [  0.147886664911200E+01,  0.171570618224500E+02,  0.000000000000000E+00], // 3,363,1:3
    [  0.692297308978100E+01,  0.149190178544000E+02,  0.000000000000000E+00], // 3,364,1:3
    [  0.171570618224500E+02,  0.172672680896700E+02,  0.000000000000000E+00], // 3,365,1:3
    [  0.233141314404400E+03,  0.629730275978200E+01,  0.000000000000000E+00], // 3,366,1:3
    [  0.137605987578600E+02,  0.137605987578600E+02,  0.000000000000000E+00], // 3,367,1:3
    [  0.629730275978200E+01,  0.787214876678100E+01,  0.000000000000000E+00], // 3,368,1:3
    [  0.787214876678100E+01,  0.626884894111000E+01,  0.000000000000000E+00], // 3,369,1:3
    [  0.626884894111000E+01,  0.415719850733100E+01,  0.000000000000000E+00], // 3,370,1:3
    [  0.415719850733100E+01,  0.977910856796600E+01,  0.000000000000000E+00], // 3,371,1:3
    [  0.156710817186700E+02,  0.109841922392200E+02,  0.000000000000000E+00], // 3,372,1:3
    [  0.318519215191400E+01,  0.125280187827600E+02,  0.000000000000000E+00], // 3,373,1:3
    [  0.125280187827600E+02,  0.161710618786700E+03,  0.000000000000000E+00], // 3,374,1:3
    [  0.161710618786700E+03,  0.318519215191400E+01,  0.000000000000000E+00], // 3,375,1:3
    [  0.564219809527000E+01,  0.627134647754400E+01,  0.000000000000000E+00], // 3,376,1:3
    [  0.213935419480800E+02,  0.213935419480800E+02,  0.000000000000000E+00], // 3,377,1:3
    [  0.629480522334700E+01,  0.629480522334700E+01,  0.000000000000000E+00], // 3,378,1:3
    [  0.627134647754400E+01,  0.219541575691100E+02,  0.000000000000000E+00], // 3,379,1:3
    [  0.172530411803300E+02,  0.744555060722400E+01,  0.000000000000000E+00], // 3,380,1:3
    [  0.744555060722400E+01,  0.956289131668400E+00,  0.000000000000000E+00], // 3,381,1:3
    [  0.419484704888700E+00,  0.116169760238900E+02,  0.000000000000000E+00], // 3,382,1:3
    [  0.956289131668400E+00,  0.227794372482800E+02,  0.000000000000000E+00], // 3,383,1:3
    [  0.116169760238900E+02,  0.108739859720000E+02,  0.000000000000000E+00], // 3,384,1:3
    [  0.227794372482800E+02,  0.316391892333500E+00,  0.000000000000000E+00], // 3,385,1:3
    [  0.136255336451200E+02,  0.136255336451200E+02,  0.000000000000000E+00], // 3,386,1:3
    [  0.168584824563900E+02,  0.172530411803300E+02,  0.000000000000000E+00], // 3,387,1:3
    [  0.298643340320800E+02,  0.627914338782000E+01,  0.000000000000000E+00], // 3,388,1:3
    [  0.574986171871200E+01,  0.138556157449700E+01,  0.000000000000000E+00], // 3,389,1:3
    [  0.627914338782000E+01,  0.417604133490000E+01,  0.000000000000000E+00], // 3,390,1:3
    [  0.138556157449700E+01,  0.628700831307100E+01,  0.000000000000000E+00], // 3,391,1:3
    [  0.417604133490000E+01,  0.574986171871200E+01,  0.000000000000000E+00], // 3,392,1:3
    [  0.628700831307100E+01,  0.590570225936300E+01,  0.000000000000000E+00], // 3,393,1:3
    [  0.209953929290900E+02,  0.209953929290900E+02,  0.000000000000000E+00], // 3,394,1:3
    [  0.590570225936300E+01,  0.733534434000100E+01,  0.000000000000000E+00], // 3,395,1:3
    [  0.393246262530000E-02,  0.543699298600000E+01,  0.000000000000000E+00], // 3,396,1:3
    [  0.733534434000100E+01,  0.123457391664500E+02,  0.000000000000000E+00], // 3,397,1:3
    [  0.123457391664500E+02,  0.380276961914000E-01,  0.000000000000000E+00], // 3,398,1:3
    [  0.267096469452200E+02,  0.267096469452200E+02,  0.000000000000000E+00], // 3,399,1:3
    [  0.640877755175500E+00,  0.666044944152800E+01,  0.000000000000000E+00], // 3,400,1:3
    [  0.666044944152800E+01,  0.137577383655700E+01,  0.000000000000000E+00], // 3,401,1:3
    [  0.137577383655700E+01,  0.448096502097700E+02,  0.000000000000000E+00], // 3,402,1:3
    [  0.380276961914000E-01,  0.640877755175500E+00,  0.000000000000000E+00], // 3,403,1:3
    [  0.448096502097700E+02,  0.377373591082700E+00,  0.000000000000000E+00], // 3,404,1:3
    [  0.205972439101000E+02,  0.393246262530000E-02,  0.000000000000000E+00], // 3,405,1:3
    [  0.108181353421300E+02,  0.164603334374000E+02,  0.000000000000000E+00], // 3,406,1:3
    [  0.377373591082700E+00,  0.108181353421300E+02,  0.000000000000000E+00], // 3,407,1:3
    [  0.298263063358900E+02,  0.564219809527000E+01,  0.000000000000000E+00], // 3,408,1:3
    [  0.193789185234500E+02,  0.298263063358900E+02,  0.000000000000000E+00], // 3,409,1:3
    [  0.692395360562100E+01,  0.193789185234500E+02,  0.000000000000000E+00], // 3,410,1:3
    [  0.306661549654500E+02,  0.692395360562100E+01,  0.000000000000000E+00], // 3,411,1:3
    [  0.614745047970900E+01,  0.306661549654500E+02,  0.000000000000000E+00], // 3,412,1:3
    [  0.263672548765700E+01,  0.614745047970900E+01,  0.000000000000000E+00], // 3,413,1:3
    [  0.681628998217900E+01,  0.263672548765700E+01,  0.000000000000000E+00], // 3,414,1:3
    [  0.641870122118300E+01,  0.681628998217900E+01,  0.000000000000000E+00], // 3,415,1:3
    [  0.123599660757800E+02,  0.641870122118300E+01,  0.000000000000000E+00], // 3,416,1:3
    [  0.165226597211200E+02,  0.123599660757800E+02,  0.000000000000000E+00], // 3,417,1:3
    [  0.104545012671100E+02,  0.205972439101000E+02,  0.000000000000000E+00], // 3,418,1:3
    [  0.316391892333500E+00,  0.282869904886500E+02,  0.000000000000000E+00], // 3,419,1:3
    [  0.282869904886500E+02,  0.605559964678300E+01,  0.000000000000000E+00], // 3,420,1:3
    [  0.219541575691100E+02,  0.625567436114300E+01,  0.000000000000000E+00], // 3,421,1:3
    [  0.117200688364500E+02,  0.631047733974800E+01,  0.000000000000000E+00], // 3,422,1:3
    [  0.605559964678300E+01,  0.165226597211200E+02,  0.000000000000000E+00], // 3,423,1:3
    [  0.512060109366700E+01,  0.117200688364500E+02,  0.000000000000000E+00], // 3,424,1:3
    [  0.179960312322200E+02,  0.275114678785800E+02,  0.000000000000000E+00], // 3,425,1:3
    [  0.625567436114300E+01,  0.651055205410900E+01,  0.000000000000000E+00], // 3,426,1:3
    [  0.631047733974800E+01,  0.546952554418200E+01,  0.000000000000000E+00], // 3,427,1:3
    [  0.546952554418200E+01,  0.169379256211600E+03,  0.000000000000000E+00], // 3,428,1:3
    [  0.103442949998900E+02,  0.263083906245000E+00,  0.000000000000000E+00], // 3,429,1:3
    [  0.651055205410900E+01,  0.394625859367500E+00,  0.000000000000000E+00], // 3,430,1:3
    [  0.169379256211600E+03,  0.839011036599100E+01,  0.000000000000000E+00], // 3,431,1:3
    [  0.839011036599100E+01,  0.224344997071500E+00,  0.000000000000000E+00], // 3,432,1:3
    [  0.224344997071500E+00,  0.298643340320800E+02,  0.000000000000000E+00], // 3,433,1:3
    [  0.612929704499100E+01,  0.612929704499100E+01,  0.000000000000000E+00], // 3,434,1:3
    [  0.104402743577800E+02,  0.117129553817800E+02,  0.000000000000000E+00], // 3,435,1:3
    [  0.643685465590100E+01,  0.643685465590100E+01,  0.000000000000000E+00], // 3,436,1:3
    [  0.938095954897700E+01,  0.201990948911100E+02,  0.000000000000000E+00], // 3,437,1:3
    [  0.593415139993000E+01,  0.593415139993000E+01,  0.000000000000000E+00], // 3,438,1:3
    [  0.247057052422300E+02,  0.247057052422300E+02,  0.000000000000000E+00], // 3,439,1:3
    [  0.867196996438100E+01,  0.867196996438100E+01,  0.000000000000000E+00], // 3,440,1:3
    [  0.709662615670900E+01,  0.709662615670900E+01,  0.000000000000000E+00], // 3,441,1:3
    [  0.172718840079000E+02,  0.172718840079000E+02,  0.000000000000000E+00], // 3,442,1:3
    [  0.707550670921900E+02,  0.707550670921900E+02,  0.000000000000000E+00], // 3,443,1:3
    [  0.663200030096100E+01,  0.437761104177700E+01,  0.000000000000000E+00], // 3,444,1:3
    [  0.620681001418300E+01,  0.663200030096100E+01,  0.000000000000000E+00], // 3,445,1:3
    [  0.487398599067100E+02,  0.487398599067100E+02,  0.000000000000000E+00], // 3,446,1:3
    [  0.159067641356100E+02,  0.159067641356100E+02,  0.000000000000000E+00], // 3,447,1:3
    [  0.309788369853100E+01,  0.661232925234300E+00,  0.000000000000000E+00], // 3,448,1:3
    [  0.661232925234300E+00,  0.345963646623900E+02,  0.000000000000000E+00], // 3,449,1:3
    [  0.345963646623900E+02,  0.198009458721200E+02,  0.000000000000000E+00], // 3,450,1:3
    [  0.284491405673000E-01,  0.284491405673000E-01,  0.000000000000000E+00], // 3,451,1:3
    [  0.201990948911100E+02,  0.266607065866800E+00,  0.000000000000000E+00], // 3,452,1:3
    [  0.303559973080000E+02,  0.148417057190000E-02,  0.000000000000000E+00], // 3,453,1:3
    [  0.628166797766700E+01,  0.303559973080000E+02,  0.000000000000000E+00], // 3,454,1:3
    [  0.628448372322400E+01,  0.628166797766700E+01,  0.000000000000000E+00], // 3,455,1:3
    [  0.198048272901500E+02,  0.628448372322400E+01,  0.000000000000000E+00], // 3,456,1:3
    [  0.287669243916700E+02,  0.244924061624500E+02,  0.000000000000000E+00], // 3,457,1:3
    [  0.244924061624500E+02,  0.204528694180600E+02,  0.000000000000000E+00], // 3,458,1:3
    [  0.204528694180600E+02,  0.247341543827900E+02,  0.000000000000000E+00], // 3,459,1:3
    [  0.235812581816400E+02,  0.167959390113600E+03,  0.000000000000000E+00], // 3,460,1:3
    [  0.247341543827900E+02,  0.333857590127200E+03,  0.000000000000000E+00], // 3,461,1:3
    [  0.167959390113600E+03,  0.162420551835700E+03,  0.000000000000000E+00], // 3,462,1:3
    [  0.333857590127200E+03,  0.314416775755200E+02,  0.000000000000000E+00], // 3,463,1:3
    [  0.162420551835700E+03,  0.526700696036500E+02,  0.000000000000000E+00], // 3,464,1:3
    [  0.895699901200000E+02,  0.895699901200000E+02,  0.000000000000000E+00], // 3,465,1:3
    [  0.526700696036500E+02,  0.333265787298600E+02,  0.000000000000000E+00], // 3,466,1:3
    [  0.333265787298600E+02,  0.385265743593300E+02,  0.000000000000000E+00], // 3,467,1:3
    [  0.385265743593300E+02,  0.228278104651900E+03,  0.000000000000000E+00], // 3,468,1:3
    [  0.228278104651900E+03,  0.282372334195600E+02,  0.000000000000000E+00], // 3,469,1:3
    [  0.839738353423100E+02,  0.287669243916700E+02,  0.000000000000000E+00], // 3,470,1:3
    [  0.840198592948200E+02,  0.839738353423100E+02,  0.000000000000000E+00], // 3,471,1:3
    [  0.782637094218000E+02,  0.840198592948200E+02,  0.000000000000000E+00], // 3,472,1:3
    [  0.311565018921500E+03,  0.782637094218000E+02,  0.000000000000000E+00], // 3,473,1:3
    [  0.178430047191000E+03,  0.311565018921500E+03,  0.000000000000000E+00], // 3,474,1:3
    [  0.588645439167800E+02,  0.178430047191000E+03,  0.000000000000000E+00], // 3,475,1:3
    [  0.784237045171300E+02,  0.588645439167800E+02,  0.000000000000000E+00], // 3,476,1:3
    [  0.101426208771900E+03,  0.784237045171300E+02,  0.000000000000000E+00], // 3,477,1:3
    [  0.566002793005900E+02,  0.101426208771900E+03,  0.000000000000000E+00], // 3,478,1:3
    [  0.424567840562700E+02,  0.566002793005900E+02,  0.000000000000000E+00], // 3,479,1:3
    [  0.245707466105300E+03,  0.424567840562700E+02,  0.000000000000000E+00], // 3,480,1:3
    [  0.167993694637100E+03,  0.245707466105300E+03,  0.000000000000000E+00], // 3,481,1:3
    [  0.605304889975300E+02,  0.167993694637100E+03,  0.000000000000000E+00], // 3,482,1:3
    [  0.965629990194600E+02,  0.605304889975300E+02,  0.000000000000000E+00], // 3,483,1:3
    [  0.244287600007200E+03,  0.965629990194600E+02,  0.000000000000000E+00], // 3,484,1:3
    [  0.143571324284400E+03,  0.244287600007200E+03,  0.000000000000000E+00], // 3,485,1:3
    [  0.836590330558200E+02,  0.836590330558200E+02,  0.000000000000000E+00], // 3,486,1:3
    [  0.843346615813100E+02,  0.316428228673900E+03,  0.000000000000000E+00], // 3,487,1:3
    [  0.316428228673900E+03,  0.405998218793900E+03,  0.000000000000000E+00], // 3,488,1:3
    [  0.405998218793900E+03,  0.180525541814500E+03,  0.000000000000000E+00], // 3,489,1:3
    [  0.180525541814500E+03,  0.843346615813100E+02,  0.000000000000000E+00], // 3,490,1:3
    [  0.256853751708100E+03,  0.256853751708100E+03,  0.000000000000000E+00], // 3,491,1:3
    [  0.244997533056200E+03,  0.244997533056200E+03,  0.000000000000000E+00], // 3,492,1:3
    [  0.156813104510700E+03,  0.156813104510700E+03,  0.000000000000000E+00], // 3,493,1:3
    [  0.394851933191000E+03,  0.394851933191000E+03,  0.000000000000000E+00], // 3,494,1:3
    [  0.154717609887200E+03,  0.143571324284400E+03,  0.000000000000000E+00], // 3,495,1:3
    [  0.226858238553900E+03,  0.226858238553900E+03,  0.000000000000000E+00], // 3,496,1:3
    [  0.165863895490100E+03,  0.165863895490100E+03,  0.000000000000000E+00], // 3,497,1:3
    [  0.221995028801500E+03,  0.221995028801500E+03,  0.000000000000000E+00], // 3,498,1:3
    [  0.305281943071000E+03,  0.305281943071000E+03,  0.000000000000000E+00], // 3,499,1:3
    [  0.252666170481200E+03,  0.252666170481200E+03,  0.000000000000000E+00], // 3,500,1:3
    [  0.417144504396800E+03,  0.417144504396800E+03,  0.000000000000000E+00], // 3,501,1:3
  ],
];
pub const E1 : [[[R;3];80];3] = [
  [
    [  0.123404632600400E-05,  0.930469054652800E-06,  0.227829044996600E-05], // 1,1,1:3
    [  0.515006882470100E-06,  0.515071557066300E-06,  0.542945820983000E-07], // 1,2,1:3
    [  0.129074392324500E-07,  0.129082541105600E-07,  0.190324049252500E-07], // 1,3,1:3
    [  0.106861556495200E-07,  0.464546666538600E-08,  0.238540927674300E-09], // 1,4,1:3
    [  0.207961914253800E-08,  0.207962531071800E-08,  0.867692834257300E-10], // 1,5,1:3
    [  0.207800924396900E-08,  0.207818985090700E-08,  0.776544259354400E-10], // 1,6,1:3
    [  0.620633005885600E-09,  0.620719013802700E-09,  0.706615833271500E-10], // 1,7,1:3
    [  0.598933531374600E-09,  0.598982653256900E-09,  0.709217528865700E-10], // 1,8,1:3
    [  0.595849566384000E-09,  0.596136081261800E-09,  0.535758221353500E-10], // 1,9,1:3
    [  0.486692326153900E-09,  0.487416547101600E-09,  0.382803586502100E-10], // 1,10,1:3
    [  0.426778582314200E-09,  0.428383403436000E-09,  0.382485722042700E-10], // 1,11,1:3
    [  0.461067514164800E-09,  0.465238928752900E-09,  0.328699518162800E-10], // 1,12,1:3
    [  0.362698999397300E-09,  0.375170747640100E-09,  0.000000000000000E+00], // 1,13,1:3
    [  0.356307119438900E-09,  0.355999880619800E-09,  0.000000000000000E+00], // 1,14,1:3
    [  0.355701564280700E-09,  0.355844755885700E-09,  0.000000000000000E+00], // 1,15,1:3
    [  0.321041208912200E-09,  0.321111692710600E-09,  0.000000000000000E+00], // 1,16,1:3
    [  0.287547357798600E-09,  0.287560991467200E-09,  0.000000000000000E+00], // 1,17,1:3
    [  0.284291368162900E-09,  0.284310970406900E-09,  0.000000000000000E+00], // 1,18,1:3
    [  0.275124821591600E-09,  0.274467646842700E-09,  0.000000000000000E+00], // 1,19,1:3
    [  0.248143288112700E-09,  0.248128523778900E-09,  0.000000000000000E+00], // 1,20,1:3
    [  0.205988597656000E-09,  0.206033848103300E-09,  0.000000000000000E+00], // 1,21,1:3
    [  0.201552234259100E-09,  0.201582235833100E-09,  0.000000000000000E+00], // 1,22,1:3
    [  0.199536408425300E-09,  0.200119594419500E-09,  0.000000000000000E+00], // 1,23,1:3
    [  0.195743643694300E-09,  0.195366764237700E-09,  0.000000000000000E+00], // 1,24,1:3
    [  0.165160981894800E-09,  0.183974407871300E-09,  0.000000000000000E+00], // 1,25,1:3
    [  0.182298055069900E-09,  0.164333429484500E-09,  0.000000000000000E+00], // 1,26,1:3
    [  0.167522315976000E-09,  0.176805101865200E-09,  0.000000000000000E+00], // 1,27,1:3
    [  0.170649176474500E-09,  0.167487420548900E-09,  0.000000000000000E+00], // 1,28,1:3
    [  0.139295236261500E-09,  0.142144539760900E-09,  0.000000000000000E+00], // 1,29,1:3
    [  0.120986826634200E-09,  0.125516395826700E-09,  0.000000000000000E+00], // 1,30,1:3
    [  0.100982720261100E-09,  0.101394528196100E-09,  0.000000000000000E+00], // 1,31,1:3
    [  0.104726138860200E-09,  0.104729433585200E-09,  0.000000000000000E+00], // 1,32,1:3
    [  0.104700665200400E-09,  0.104710387939200E-09,  0.000000000000000E+00], // 1,33,1:3
    [  0.960999314309500E-10,  0.953034396282600E-10,  0.000000000000000E+00], // 1,34,1:3
    [  0.959090059387300E-10,  0.960463761169000E-10,  0.000000000000000E+00], // 1,35,1:3
    [  0.914624918807100E-10,  0.915351853717700E-10,  0.000000000000000E+00], // 1,36,1:3
    [  0.854527448029000E-10,  0.856245821492200E-10,  0.000000000000000E+00], // 1,37,1:3
    [  0.822437788119400E-10,  0.823252536065400E-10,  0.000000000000000E+00], // 1,38,1:3
    [  0.618352951041000E-10,  0.615022341143800E-10,  0.000000000000000E+00], // 1,39,1:3
    [  0.625925514714100E-10,  0.627208785800000E-10,  0.000000000000000E+00], // 1,40,1:3
    [  0.553929169415100E-10,  0.554047631104000E-10,  0.000000000000000E+00], // 1,41,1:3
    [  0.732825946631400E-10,  0.733190169936100E-10,  0.000000000000000E+00], // 1,42,1:3
    [  0.601783584356000E-10,  0.601852870279100E-10,  0.000000000000000E+00], // 1,43,1:3
    [  0.707982777524300E-10,  0.515053072480400E-10,  0.000000000000000E+00], // 1,44,1:3
    [  0.517035887821300E-10,  0.647193374181100E-10,  0.000000000000000E+00], // 1,45,1:3
    [  0.487230183868200E-10,  0.531746064417400E-10,  0.000000000000000E+00], // 1,46,1:3
    [  0.524986941105800E-10,  0.483218774878300E-10,  0.000000000000000E+00], // 1,47,1:3
    [  0.471617235441100E-10,  0.471676355511000E-10,  0.000000000000000E+00], // 1,48,1:3
    [  0.487121494096400E-10,  0.487150913986100E-10,  0.000000000000000E+00], // 1,49,1:3
    [  0.459807685075100E-10,  0.459841769676800E-10,  0.000000000000000E+00], // 1,50,1:3
    [  0.456219608948500E-10,  0.567418953317500E-10,  0.000000000000000E+00], // 1,51,1:3
    [  0.432549387222400E-10,  0.407356032819500E-10,  0.000000000000000E+00], // 1,52,1:3
    [  0.567378117674800E-10,  0.504099494535900E-10,  0.000000000000000E+00], // 1,53,1:3
    [  0.396143664250300E-10,  0.507818513467900E-10,  0.000000000000000E+00], // 1,54,1:3
    [  0.510186820905800E-10,  0.376934353706100E-10,  0.000000000000000E+00], // 1,55,1:3
    [  0.525704316767600E-10,  0.498033136529900E-10,  0.000000000000000E+00], // 1,56,1:3
    [  0.507661398939300E-10,  0.345823659475700E-10,  0.000000000000000E+00], // 1,57,1:3
    [  0.334216935277800E-10,  0.357885949360200E-10,  0.000000000000000E+00], // 1,58,1:3
    [  0.354588198359100E-10,  0.337050464641900E-10,  0.000000000000000E+00], // 1,59,1:3
    [  0.336406373859900E-10,  0.329987333842800E-10,  0.000000000000000E+00], // 1,60,1:3
    [  0.335703967077600E-10,  0.430491731840900E-10,  0.000000000000000E+00], // 1,61,1:3
    [  0.430741226868700E-10,  0.340241875345500E-10,  0.000000000000000E+00], // 1,62,1:3
    [  0.340576911543500E-10,  0.277846057214600E-10,  0.000000000000000E+00], // 1,63,1:3
    [  0.300192619848000E-10,  0.278271012890200E-10,  0.000000000000000E+00], // 1,64,1:3
    [  0.277826478732500E-10,  0.271172517964600E-10,  0.000000000000000E+00], // 1,65,1:3
    [  0.267615948066600E-10,  0.298176094634000E-10,  0.000000000000000E+00], // 1,66,1:3
    [  0.295427339993900E-10,  0.281167297777200E-10,  0.000000000000000E+00], // 1,67,1:3
    [  0.330936288879500E-10,  0.286345447446700E-10,  0.000000000000000E+00], // 1,68,1:3
    [  0.281028360843800E-10,  0.333346463405100E-10,  0.000000000000000E+00], // 1,69,1:3
    [  0.337804563776400E-10,  0.331299174760900E-10,  0.000000000000000E+00], // 1,70,1:3
    [  0.255813497984000E-10,  0.281325556400600E-10,  0.000000000000000E+00], // 1,71,1:3
    [  0.227375557844700E-10,  0.266509808396600E-10,  0.000000000000000E+00], // 1,72,1:3
    [  0.229417603769000E-10,  0.234979570521600E-10,  0.000000000000000E+00], // 1,73,1:3
    [  0.253350609943500E-10,  0.233035229396100E-10,  0.000000000000000E+00], // 1,74,1:3
    [  0.271668537581200E-10,  0.272800168341900E-10,  0.000000000000000E+00], // 1,75,1:3
    [  0.241904343519800E-10,  0.248406100766900E-10,  0.000000000000000E+00], // 1,76,1:3
    [  0.252123254481200E-10,  0.264632876842700E-10,  0.000000000000000E+00], // 1,77,1:3
    [  0.263019502149100E-10,  0.251863026483100E-10,  0.000000000000000E+00], // 1,78,1:3
    [  0.254839584094400E-10,  0.242190145538400E-10,  0.000000000000000E+00], // 1,79,1:3
    [  0.000000000000000E+00,  0.634853326783100E-11,  0.000000000000000E+00], // 1,80,1:3
  ],
  [
    [  0.000000000000000E+00,  0.000000000000000E+00,  0.341371603386300E+01], // 2,1,1:3
    [  0.600266455750100E+01,  0.443180711629400E+01,  0.000000000000000E+00], // 2,2,1:3
    [  0.595943766419900E+01,  0.438861003967800E+01,  0.337059235829700E+01], // 2,3,1:3
    [  0.201552965420900E+01,  0.582726337603400E+01,  0.332791471841600E+01], // 2,4,1:3
    [  0.173296053143200E+01,  0.162169866228200E+00,  0.182400681126400E+01], // 2,5,1:3
    [  0.491560447699600E+01,  0.334471343514000E+01,  0.388856427924700E+01], // 2,6,1:3
    [  0.361645795382400E+00,  0.507404931957600E+01,  0.519426723194400E+01], // 2,7,1:3
    [  0.380260730447400E+01,  0.223184221662000E+01,  0.233324696002100E+01], // 2,8,1:3
    [  0.284586656003100E+01,  0.127497576904500E+01,  0.222403117661900E+01], // 2,9,1:3
    [  0.521320377182400E+01,  0.364227742677900E+01,  0.215671093358400E+01], // 2,10,1:3
    [  0.436818972781800E+00,  0.514876551010600E+01,  0.152975521991500E+01], // 2,11,1:3
    [  0.183724918137200E-01,  0.471579479217500E+01,  0.487951290048300E+01], // 2,12,1:3
    [  0.216159054532600E+01,  0.661720737032500E+00,  0.000000000000000E+00], // 2,13,1:3
    [  0.145263195474600E+01,  0.615554887540400E+01,  0.000000000000000E+00], // 2,14,1:3
    [  0.447059339305400E+01,  0.289882729766400E+01,  0.000000000000000E+00], // 2,15,1:3
    [  0.519592607831400E+01,  0.362581350250900E+01,  0.000000000000000E+00], // 2,16,1:3
    [  0.591625661019300E+01,  0.434543581313400E+01,  0.000000000000000E+00], // 2,17,1:3
    [  0.114990242604700E+01,  0.586226394003800E+01,  0.000000000000000E+00], // 2,18,1:3
    [  0.550208857466200E+01,  0.392641947508900E+01,  0.000000000000000E+00], // 2,19,1:3
    [  0.292198984663700E+01,  0.135197657282800E+01,  0.000000000000000E+00], // 2,20,1:3
    [  0.371807037658500E+01,  0.214755699859100E+01,  0.000000000000000E+00], // 2,21,1:3
    [  0.597939525974000E+01,  0.440835897221600E+01,  0.000000000000000E+00], // 2,22,1:3
    [  0.677208798549400E+00,  0.538582982253100E+01,  0.000000000000000E+00], // 2,23,1:3
    [  0.289921065466500E+01,  0.130493374612000E+01,  0.000000000000000E+00], // 2,24,1:3
    [  0.622820648219200E+01,  0.617356722883500E+01,  0.000000000000000E+00], // 2,25,1:3
    [  0.146934874617900E+01,  0.463594299752300E+01,  0.000000000000000E+00], // 2,26,1:3
    [  0.381391055568800E+01,  0.508628355887400E+01,  0.000000000000000E+00], // 2,27,1:3
    [  0.300438050668400E+00,  0.224333213724100E+01,  0.000000000000000E+00], // 2,28,1:3
    [  0.144039397340600E+01,  0.618689977151500E+01,  0.000000000000000E+00], // 2,29,1:3
    [  0.415042579172700E+01,  0.573023846565800E+01,  0.000000000000000E+00], // 2,30,1:3
    [  0.329004042984300E+01,  0.172605522840200E+01,  0.000000000000000E+00], // 2,31,1:3
    [  0.422959009022700E+01,  0.265880122812900E+01,  0.000000000000000E+00], // 2,32,1:3
    [  0.241896768057500E+01,  0.848104783503500E+00,  0.000000000000000E+00], // 2,33,1:3
    [  0.462794365920100E+01,  0.307926714985900E+01,  0.000000000000000E+00], // 2,34,1:3
    [  0.189439393992400E+01,  0.325867979291800E+00,  0.000000000000000E+00], // 2,35,1:3
    [  0.201064751956200E+01,  0.439859988658400E+00,  0.000000000000000E+00], // 2,36,1:3
    [  0.552984695622600E-01,  0.477268679414500E+01,  0.000000000000000E+00], // 2,37,1:3
    [  0.125430410217400E+01,  0.596622072167900E+01,  0.000000000000000E+00], // 2,38,1:3
    [  0.336086216881500E+01,  0.178098559192300E+01,  0.000000000000000E+00], // 2,39,1:3
    [  0.475562824317900E+01,  0.318430542901200E+01,  0.000000000000000E+00], // 2,40,1:3
    [  0.537174695514200E+01,  0.380126059543300E+01,  0.000000000000000E+00], // 2,41,1:3
    [  0.492769961390600E+00,  0.520594859186500E+01,  0.000000000000000E+00], // 2,42,1:3
    [  0.577668200173400E-01,  0.477013908362300E+01,  0.000000000000000E+00], // 2,43,1:3
    [  0.439505943225100E+01,  0.357479689958500E+01,  0.000000000000000E+00], // 2,44,1:3
    [  0.515406261995400E+01,  0.267978726652100E+01,  0.000000000000000E+00], // 2,45,1:3
    [  0.628961164897300E+00,  0.952876334549400E+00,  0.000000000000000E+00], // 2,46,1:3
    [  0.561727204694900E+01,  0.532932249823200E+01,  0.000000000000000E+00], // 2,47,1:3
    [  0.396590180087700E+01,  0.239523531646600E+01,  0.000000000000000E+00], // 2,48,1:3
    [  0.462750705009300E+01,  0.305666364882300E+01,  0.000000000000000E+00], // 2,49,1:3
    [  0.602363122645900E+01,  0.445276260901900E+01,  0.000000000000000E+00], // 2,50,1:3
    [  0.413856208406800E+01,  0.987968087219300E+00,  0.000000000000000E+00], // 2,51,1:3
    [  0.133084590656400E+01,  0.593912769698600E+01,  0.000000000000000E+00], // 2,52,1:3
    [  0.255875261565700E+01,  0.454987582451000E+01,  0.000000000000000E+00], // 2,53,1:3
    [  0.272807173463000E+01,  0.734665989398200E+00,  0.000000000000000E+00], // 2,54,1:3
    [  0.411344496514400E+01,  0.107131718836700E+01,  0.000000000000000E+00], // 2,55,1:3
    [  0.619508983059000E+01,  0.250034534178400E+01,  0.000000000000000E+00], // 2,56,1:3
    [  0.230512413291800E+01,  0.382515945071100E+01,  0.000000000000000E+00], // 2,57,1:3
    [  0.541599815507100E+01,  0.529966479154900E+01,  0.000000000000000E+00], // 2,58,1:3
    [  0.372716056457400E+01,  0.500231630159300E+01,  0.000000000000000E+00], // 2,59,1:3
    [  0.290112104920400E+00,  0.252612327528200E+01,  0.000000000000000E+00], // 2,60,1:3
    [  0.165222935433100E+01,  0.336807855713200E+01,  0.000000000000000E+00], // 2,61,1:3
    [  0.493890958744500E+01,  0.838549542580000E+00,  0.000000000000000E+00], // 2,62,1:3
    [  0.240889076651100E+01,  0.366990520324000E+01,  0.000000000000000E+00], // 2,63,1:3
    [  0.486223900638600E+01,  0.269166481217000E+00,  0.000000000000000E+00], // 2,64,1:3
    [  0.524116866135300E+01,  0.470748721771800E+01,  0.000000000000000E+00], // 2,65,1:3
    [  0.342359394219900E+01,  0.319026086781600E+00,  0.000000000000000E+00], // 2,66,1:3
    [  0.188172126540600E+01,  0.319653231537200E+01,  0.000000000000000E+00], // 2,67,1:3
    [  0.193152567734900E+01,  0.226324032478000E+00,  0.000000000000000E+00], // 2,68,1:3
    [  0.241465949505000E+01,  0.349845168506500E+01,  0.000000000000000E+00], // 2,69,1:3
    [  0.423801916343000E+01,  0.583915447741200E+01,  0.000000000000000E+00], // 2,70,1:3
    [  0.182822523580500E+01,  0.826804434662100E+00,  0.000000000000000E+00], // 2,71,1:3
    [  0.585818428399800E+01,  0.393402172536000E+01,  0.000000000000000E+00], // 2,72,1:3
    [  0.451458977905700E+01,  0.519762091377900E+01,  0.000000000000000E+00], // 2,73,1:3
    [  0.235571785155100E+01,  0.298499923180700E+01,  0.000000000000000E+00], // 2,74,1:3
    [  0.222100362510000E+01,  0.652167963854400E+00,  0.000000000000000E+00], // 2,75,1:3
    [  0.595570495163500E+01,  0.346895556109700E+01,  0.000000000000000E+00], // 2,76,1:3
    [  0.139567684852100E+01,  0.101372453351600E+01,  0.000000000000000E+00], // 2,77,1:3
    [  0.572746891874300E+01,  0.610808105712200E+01,  0.000000000000000E+00], // 2,78,1:3
    [  0.262835185940000E-03,  0.165109777626000E+01,  0.000000000000000E+00], // 2,79,1:3
    [  0.000000000000000E+00,  0.322022656032100E+01,  0.000000000000000E+00], // 2,80,1:3
  ],
  [
    [  0.000000000000000E+00,  0.000000000000000E+00,  0.628307585044600E+01], // 3,1,1:3
    [  0.125661517008900E+02,  0.125661517008900E+02,  0.000000000000000E+00], // 3,2,1:3
    [  0.188492275513400E+02,  0.188492275513400E+02,  0.125661517008900E+02], // 3,3,1:3
    [  0.628307585044600E+01,  0.628307585044600E+01,  0.188492275513400E+02], // 3,4,1:3
    [  0.627955269082400E+01,  0.627955269082400E+01,  0.522369390622200E+01], // 3,5,1:3
    [  0.628659901006800E+01,  0.628659901006800E+01,  0.550755324037400E+01], // 3,6,1:3
    [  0.470573230701200E+01,  0.470573230701200E+01,  0.235286615350600E+01], // 3,7,1:3
    [  0.625677752715600E+01,  0.625677752715600E+01,  0.839968473185700E+02], // 3,8,1:3
    [  0.630937417373600E+01,  0.630937417373600E+01,  0.529690972111800E+00], // 3,9,1:3
    [  0.775522610072000E+00,  0.775522610072000E+00,  0.627955269082400E+01], // 3,10,1:3
    [  0.105938194422400E+01,  0.105938194422400E+01,  0.628659901006800E+01], // 3,11,1:3
    [  0.786041939388000E+01,  0.786041939388000E+01,  0.102132855473900E+02], // 3,12,1:3
    [  0.575338487833400E+01,  0.575338487833400E+01,  0.000000000000000E+00], // 3,13,1:3
    [  0.588492683145600E+01,  0.588492683145600E+01,  0.000000000000000E+00], // 3,14,1:3
    [  0.681276682255800E+01,  0.681276682255800E+01,  0.000000000000000E+00], // 3,15,1:3
    [  0.668122486943500E+01,  0.668122486943500E+01,  0.000000000000000E+00], // 3,16,1:3
    [  0.251323034017800E+02,  0.251323034017800E+02,  0.000000000000000E+00], // 3,17,1:3
    [  0.612765556764300E+01,  0.612765556764300E+01,  0.000000000000000E+00], // 3,18,1:3
    [  0.643849613324900E+01,  0.643849613324900E+01,  0.000000000000000E+00], // 3,19,1:3
    [  0.548677781246700E+01,  0.548677781246700E+01,  0.000000000000000E+00], // 3,20,1:3
    [  0.707937388842400E+01,  0.707937388842400E+01,  0.000000000000000E+00], // 3,21,1:3
    [  0.629018930511400E+01,  0.629018930511400E+01,  0.000000000000000E+00], // 3,22,1:3
    [  0.627596239577800E+01,  0.627596239577800E+01,  0.000000000000000E+00], // 3,23,1:3
    [  0.550755324037400E+01,  0.550755324037400E+01,  0.000000000000000E+00], // 3,24,1:3
    [  0.115067697566700E+02,  0.117906290908200E+02,  0.000000000000000E+00], // 3,25,1:3
    [  0.117906290908200E+02,  0.115067697566700E+02,  0.000000000000000E+00], // 3,26,1:3
    [  0.705859846051800E+01,  0.711345466790000E-02,  0.000000000000000E+00], // 3,27,1:3
    [  0.711345466790000E-02,  0.705859846051800E+01,  0.000000000000000E+00], // 3,28,1:3
    [  0.796298037978600E+00,  0.796298037978600E+00,  0.000000000000000E+00], // 3,29,1:3
    [  0.469400293411000E+01,  0.469400293411000E+01,  0.000000000000000E+00], // 3,30,1:3
    [  0.373876145370700E+01,  0.373876145370700E+01,  0.000000000000000E+00], // 3,31,1:3
    [  0.628209533460500E+01,  0.628209533460500E+01,  0.000000000000000E+00], // 3,32,1:3
    [  0.628405636628600E+01,  0.628405636628600E+01,  0.000000000000000E+00], // 3,33,1:3
    [  0.606977677066700E+01,  0.606977677066700E+01,  0.000000000000000E+00], // 3,34,1:3
    [  0.413691047269600E+01,  0.413691047269600E+01,  0.000000000000000E+00], // 3,35,1:3
    [  0.649637493022400E+01,  0.649637493022400E+01,  0.000000000000000E+00], // 3,36,1:3
    [  0.119444705696800E+01,  0.119444705696800E+01,  0.000000000000000E+00], // 3,37,1:3
    [  0.158907291633500E+01,  0.158907291633500E+01,  0.000000000000000E+00], // 3,38,1:3
    [  0.882739024718500E+01,  0.882739024718500E+01,  0.000000000000000E+00], // 3,39,1:3
    [  0.842924122819500E+01,  0.842924122819500E+01,  0.000000000000000E+00], // 3,40,1:3
    [  0.493320851067500E+01,  0.493320851067500E+01,  0.000000000000000E+00], // 3,41,1:3
    [  0.453505949168500E+01,  0.453505949168500E+01,  0.000000000000000E+00], // 3,42,1:3
    [  0.125590382462200E+02,  0.125590382462200E+02,  0.000000000000000E+00], // 3,43,1:3
    [  0.508862879347800E+01,  0.117698536629100E+02,  0.000000000000000E+00], // 3,44,1:3
    [  0.117698536629100E+02,  0.508862879347800E+01,  0.000000000000000E+00], // 3,45,1:3
    [  0.604034711426000E+01,  0.315468708686800E+01,  0.000000000000000E+00], // 3,46,1:3
    [  0.315468708686800E+01,  0.604034711426000E+01,  0.000000000000000E+00], // 3,47,1:3
    [  0.533135752966400E+01,  0.533135752966400E+01,  0.000000000000000E+00], // 3,48,1:3
    [  0.125696748605100E+02,  0.125696748605100E+02,  0.000000000000000E+00], // 3,49,1:3
    [  0.652580458663200E+01,  0.652580458663200E+01,  0.000000000000000E+00], // 3,50,1:3
    [  0.393020969694000E+01,  0.572950654865300E+01,  0.000000000000000E+00], // 3,51,1:3
    [  0.763294319021700E+01,  0.763294319021700E+01,  0.000000000000000E+00], // 3,52,1:3
    [  0.572950654865300E+01,  0.803109220920600E+01,  0.000000000000000E+00], // 3,53,1:3
    [  0.723479417122700E+01,  0.747752290741400E+01,  0.000000000000000E+00], // 3,54,1:3
    [  0.683664515223800E+01,  0.723479417122700E+01,  0.000000000000000E+00], // 3,55,1:3
    [  0.803109220920600E+01,  0.683664515223800E+01,  0.000000000000000E+00], // 3,56,1:3
    [  0.747752290741400E+01,  0.109770787845600E+02,  0.000000000000000E+00], // 3,57,1:3
    [  0.109770787845600E+02,  0.416431196199900E+01,  0.000000000000000E+00], // 3,58,1:3
    [  0.416431196199900E+01,  0.113717046439200E+02,  0.000000000000000E+00], // 3,59,1:3
    [  0.113717046439200E+02,  0.393020969694000E+01,  0.000000000000000E+00], // 3,60,1:3
    [  0.522369390622200E+01,  0.159259607595700E+01,  0.000000000000000E+00], // 3,61,1:3
    [  0.159259607595700E+01,  0.312838876357800E+01,  0.000000000000000E+00], // 3,62,1:3
    [  0.312838876357800E+01,  0.734245779466900E+01,  0.000000000000000E+00], // 3,63,1:3
    [  0.174801635876000E+01,  0.174801635876000E+01,  0.000000000000000E+00], // 3,64,1:3
    [  0.734245779466900E+01,  0.529690972111800E+00,  0.000000000000000E+00], // 3,65,1:3
    [  0.214616537775000E+01,  0.536804426779700E+00,  0.000000000000000E+00], // 3,66,1:3
    [  0.536804426779700E+00,  0.708489678380800E+01,  0.000000000000000E+00], // 3,67,1:3
    [  0.801820933361900E+00,  0.522369390622200E+01,  0.000000000000000E+00], // 3,68,1:3
    [  0.522577517443900E+00,  0.801820933361900E+00,  0.000000000000000E+00], // 3,69,1:3
    [  0.155420282803100E+00,  0.155420282803100E+00,  0.000000000000000E+00], // 3,70,1:3
    [  0.523080736089000E+01,  0.522577517443900E+00,  0.000000000000000E+00], // 3,71,1:3
    [  0.708489678380800E+01,  0.521658045155400E+01,  0.000000000000000E+00], // 3,72,1:3
    [  0.172601546350000E+02,  0.214616537775000E+01,  0.000000000000000E+00], // 3,73,1:3
    [  0.521658045155400E+01,  0.172601546350000E+02,  0.000000000000000E+00], // 3,74,1:3
    [  0.863594200395200E+01,  0.863594200395200E+01,  0.000000000000000E+00], // 3,75,1:3
    [  0.469047977448800E+01,  0.523080736089000E+01,  0.000000000000000E+00], // 3,76,1:3
    [  0.548125491708400E+01,  0.262983232899000E-01,  0.000000000000000E+00], // 3,77,1:3
    [  0.262983232899000E-01,  0.548125491708400E+01,  0.000000000000000E+00], // 3,78,1:3
    [  0.134986733977100E+01,  0.134986733977100E+01,  0.000000000000000E+00], // 3,79,1:3
    [  0.000000000000000E+00,  0.843346615813100E+02,  0.000000000000000E+00], // 3,80,1:3
  ],
];
pub const E2 : [[[R;3];5];3] = [
  [
    [ -0.414381829791300E-10,  0.506337587253200E-10,  0.972266611489100E-10], // 1,1,1:3
    [  0.217149769443500E-10,  0.217381578598000E-10, -0.349481917190900E-11], // 1,2,1:3
    [  0.984539844251600E-11,  0.101023199992000E-10,  0.671303437607600E-12], // 1,3,1:3
    [  0.925683355268200E-12,  0.925974531763600E-12,  0.000000000000000E+00], // 1,4,1:3
    [  0.102204938411500E-12,  0.102220209581200E-12,  0.000000000000000E+00], // 1,5,1:3
  ],
  [
    [  0.000000000000000E+00,  0.000000000000000E+00,  0.515221958265800E+01], // 2,1,1:3
    [  0.439822562826400E+01,  0.282780583305300E+01,  0.000000000000000E+00], // 2,2,1:3
    [  0.207972083838400E+00,  0.463461237713300E+01,  0.644018875049500E+00], // 2,3,1:3
    [  0.419126469436100E+01,  0.262061207618900E+01,  0.000000000000000E+00], // 2,4,1:3
    [  0.538113319565800E+01,  0.380956232606600E+01,  0.000000000000000E+00], // 2,5,1:3
  ],
  [
    [  0.000000000000000E+00,  0.000000000000000E+00,  0.628307585044600E+01], // 3,1,1:3
    [  0.125661517008900E+02,  0.125661517008900E+02,  0.000000000000000E+00], // 3,2,1:3
    [  0.628307585044600E+01,  0.628307585044600E+01,  0.125661517008900E+02], // 3,3,1:3
    [  0.188492275513400E+02,  0.188492275513400E+02,  0.000000000000000E+00], // 3,4,1:3
    [  0.839968473185700E+02,  0.839968473185700E+02,  0.000000000000000E+00], // 3,5,1:3
  ],
];
pub const S0 : [[[R;3];213];3] = [
  [
    [  0.495675753641000E-02,  0.495539232012600E-02,  0.118125512298600E-03], // 1,1,1:3
    [  0.271849007252200E-02,  0.272232516739200E-02,  0.112777765109500E-03], // 1,2,1:3
    [  0.154649397434400E-02,  0.154657992534600E-02,  0.477775440180600E-04], // 1,3,1:3
    [  0.836685527634100E-03,  0.836314025296600E-03,  0.112935428577200E-04], // 1,4,1:3
    [  0.293677794211700E-03,  0.338579268360300E-03, -0.114954363712300E-04], // 1,5,1:3
    [  0.120131743946900E-03,  0.120119222161300E-03,  0.329873051230600E-05], // 1,6,1:3
    [  0.757855088723000E-04,  0.758712572055400E-04,  0.273337670607900E-05], // 1,7,1:3
    [  0.194178736777300E-04,  0.196415536125000E-04,  0.942638965727000E-06], // 1,8,1:3
    [  0.188922776599100E-04,  0.189190036490900E-04,  0.818751774955200E-06], // 1,9,1:3
    [  0.193789696861300E-04,  0.193737343335600E-04,  0.408044787181900E-06], // 1,10,1:3
    [  0.143450611087300E-04,  0.143713994135100E-04,  0.316997301702800E-06], // 1,11,1:3
    [  0.140665991158000E-04,  0.140626768309900E-04,  0.243809861554900E-06], // 1,12,1:3
    [  0.117902230020200E-04,  0.117870308034600E-04,  0.260189751723500E-06], // 1,13,1:3
    [  0.808586446095900E-05,  0.807983518604100E-05,  0.231455808007900E-06], // 1,14,1:3
    [  0.762275296761500E-05,  0.762325359465200E-05,  0.196254954800200E-06], // 1,15,1:3
    [  0.620917113906600E-05,  0.624866748397100E-05,  0.218051828792500E-06], // 1,16,1:3
    [  0.436643563397000E-05,  0.436635369503800E-05,  0.145138244286800E-06], // 1,17,1:3
    [  0.379212488934800E-05,  0.382910156889500E-05,  0.135843900738900E-06], // 1,18,1:3
    [  0.315454896340200E-05,  0.317573377390800E-05,  0.105058589802800E-06], // 1,19,1:3
    [  0.308835988294200E-05,  0.309243790215900E-05,  0.105002987018600E-06], // 1,20,1:3
    [  0.278844090213600E-05,  0.287416881215400E-05,  0.993492067980000E-07], // 1,21,1:3
    [  0.303992845637600E-05,  0.304011932182600E-05,  0.104839533156000E-06], // 1,22,1:3
    [  0.227225845767900E-05,  0.269972330800600E-05,  0.837014719666800E-07], // 1,23,1:3
    [  0.216200705795700E-05,  0.213483268353400E-05,  0.798985651099800E-07], // 1,24,1:3
    [  0.176763285573700E-05,  0.177041213943300E-05,  0.544122165523300E-07], // 1,25,1:3
    [  0.134941345936200E-05,  0.137726420937300E-05,  0.461081290678400E-07], // 1,26,1:3
    [  0.117014190047600E-05,  0.112781453896000E-05,  0.392302280344400E-07], // 1,27,1:3
    [  0.105435526682000E-05,  0.105560809013000E-05,  0.261072558212800E-07], // 1,28,1:3
    [  0.980082246161000E-06,  0.980267386142000E-06,  0.245527976772100E-07], // 1,29,1:3
    [  0.109120374993100E-05,  0.109032946195100E-05,  0.237553070652500E-07], // 1,30,1:3
    [  0.696023671591300E-06,  0.695959002509000E-06,  0.178296757755300E-07], // 1,31,1:3
    [  0.568925729690900E-06,  0.566491452954200E-06,  0.158168709523800E-07], // 1,32,1:3
    [  0.661317213580200E-06,  0.660778776359900E-06,  0.159465767246100E-07], // 1,33,1:3
    [  0.627770251757100E-06,  0.626972574283800E-06,  0.156344861504000E-07], // 1,34,1:3
    [  0.630488406669900E-06,  0.630188969786300E-06,  0.146362425852500E-07], // 1,35,1:3
    [  0.489785046738200E-06,  0.489104266286100E-06,  0.133158505667300E-07], // 1,36,1:3
    [  0.375914859878600E-06,  0.345708312329000E-06,  0.113063455763700E-07], // 1,37,1:3
    [  0.311052054819500E-06,  0.303255996731400E-06,  0.102894960714500E-07], // 1,38,1:3
    [  0.306470835978000E-06,  0.284113398890300E-06,  0.102407497161800E-07], // 1,39,1:3
    [  0.285634716824100E-06,  0.285556444443200E-06,  0.882695606030300E-08], // 1,40,1:3
    [  0.284094551428800E-06,  0.276515713503800E-06,  0.857223017154100E-08], // 1,41,1:3
    [  0.237895159940500E-06,  0.238231246503400E-06,  0.764933264354400E-08], // 1,42,1:3
    [  0.271422948141700E-06,  0.280806036507700E-06,  0.858167329103300E-08], // 1,43,1:3
    [  0.232355171730700E-06,  0.233217523440500E-06,  0.843058930093800E-08], // 1,44,1:3
    [  0.188179051221900E-06,  0.232248819965900E-06,  0.777616550101200E-08], // 1,45,1:3
    [  0.226135396837100E-06,  0.188185025842300E-06,  0.831107023440800E-08], // 1,46,1:3
    [  0.221454638984800E-06,  0.219611139280800E-06,  0.692736521258200E-08], // 1,47,1:3
    [  0.218491559493300E-06,  0.218381033551900E-06,  0.679157420859800E-08], // 1,48,1:3
    [  0.200016493793600E-06,  0.200273309332600E-06,  0.559310081183900E-08], // 1,49,1:3
    [  0.196610513671900E-06,  0.196711176722900E-06,  0.455338185302100E-08], // 1,50,1:3
    [  0.190474233262400E-06,  0.156847325054300E-06,  0.575800045006800E-08], // 1,51,1:3
    [  0.165739970503100E-06,  0.185252831430000E-06,  0.428128345713300E-08], // 1,52,1:3
    [  0.157407053398700E-06,  0.183211122644700E-06,  0.420693566109700E-08], // 1,53,1:3
    [  0.183226165103900E-06,  0.174680550231000E-06,  0.421375164183700E-08], // 1,54,1:3
    [  0.173361534656900E-06,  0.155573096665000E-06,  0.531050623987800E-08], // 1,55,1:3
    [  0.154912401449600E-06,  0.155488346255900E-06,  0.382745034132000E-08], // 1,56,1:3
    [  0.163704471383800E-06,  0.163838056874600E-06,  0.429243524118700E-08], // 1,57,1:3
    [  0.112342008238300E-06,  0.115993859364000E-06,  0.318978070228900E-08], // 1,58,1:3
    [  0.108375416574000E-06,  0.108342796569500E-06,  0.322661192806900E-08], // 1,59,1:3
    [  0.115663801265500E-06,  0.115648036943100E-06,  0.289389760883000E-08], // 1,60,1:3
    [  0.114254878513400E-06,  0.114130886009500E-06,  0.323985202457800E-08], // 1,61,1:3
    [  0.792146389596500E-07,  0.791314647094600E-07,  0.295689222220000E-08], // 1,62,1:3
    [  0.742860028523100E-07,  0.743975246373300E-07,  0.298017791243700E-08], // 1,63,1:3
    [  0.832321124674700E-07,  0.728027710407900E-07,  0.316372569077600E-08], // 1,64,1:3
    [  0.725759511631200E-07,  0.831956771913600E-07,  0.266226239911800E-08], // 1,65,1:3
    [  0.711118583323600E-07,  0.713770554929000E-07,  0.276668913572900E-08], // 1,66,1:3
    [  0.686809038371600E-07,  0.690082539622500E-07,  0.241160027846400E-08], // 1,67,1:3
    [  0.722641997417500E-07,  0.724575721663500E-07,  0.248352769513100E-08], // 1,68,1:3
    [  0.695564238317700E-07,  0.696116569625500E-07,  0.778877727659000E-09], // 1,69,1:3
    [  0.749213929633100E-07,  0.757180445689000E-07,  0.000000000000000E+00], // 1,70,1:3
    [  0.659836312885700E-07,  0.660542572190400E-07,  0.000000000000000E+00], // 1,71,1:3
    [  0.738114729338500E-07,  0.737547735724800E-07,  0.000000000000000E+00], // 1,72,1:3
    [  0.640290962403200E-07,  0.704166495147000E-07,  0.000000000000000E+00], // 1,73,1:3
    [  0.623745426385700E-07,  0.632219953576300E-07,  0.000000000000000E+00], // 1,74,1:3
    [  0.524119854401600E-07,  0.524438027919100E-07,  0.000000000000000E+00], // 1,75,1:3
    [  0.514446385391800E-07,  0.514312570498800E-07,  0.000000000000000E+00], // 1,76,1:3
    [  0.586816477229900E-07,  0.587186631937300E-07,  0.000000000000000E+00], // 1,77,1:3
    [  0.623319566915100E-07,  0.630082257387100E-07,  0.000000000000000E+00], // 1,78,1:3
    [  0.606846379142200E-07,  0.606215427154800E-07,  0.000000000000000E+00], // 1,79,1:3
    [  0.435936113506500E-07,  0.436191233997600E-07,  0.000000000000000E+00], // 1,80,1:3
    [  0.468651036682600E-07,  0.441700592006700E-07,  0.000000000000000E+00], // 1,81,1:3
    [  0.375897728722500E-07,  0.468680674993600E-07,  0.000000000000000E+00], // 1,82,1:3
    [  0.428205197477800E-07,  0.375889213230500E-07,  0.000000000000000E+00], // 1,83,1:3
    [  0.515376538611300E-07,  0.515135133231900E-07,  0.000000000000000E+00], // 1,84,1:3
    [  0.457512938718800E-07,  0.455468357857200E-07,  0.000000000000000E+00], // 1,85,1:3
    [  0.332684493328600E-07,  0.344238138533800E-07,  0.000000000000000E+00], // 1,86,1:3
    [  0.374861745098400E-07,  0.283109395493300E-07,  0.000000000000000E+00], // 1,87,1:3
    [  0.281675666149900E-07,  0.375626709008400E-07,  0.000000000000000E+00], // 1,88,1:3
    [  0.341275040503900E-07,  0.281637467989200E-07,  0.000000000000000E+00], // 1,89,1:3
    [  0.265579676177600E-07,  0.341930702556900E-07,  0.000000000000000E+00], // 1,90,1:3
    [  0.296359792945800E-07,  0.290425049423900E-07,  0.000000000000000E+00], // 1,91,1:3
    [  0.253952373478100E-07,  0.247173451120600E-07,  0.000000000000000E+00], // 1,92,1:3
    [  0.228308791413900E-07,  0.253962083187200E-07,  0.000000000000000E+00], // 1,93,1:3
    [  0.232130979933100E-07,  0.228101786800700E-07,  0.000000000000000E+00], // 1,94,1:3
    [  0.254965764975000E-07,  0.227531947333500E-07,  0.000000000000000E+00], // 1,95,1:3
    [  0.229046230397700E-07,  0.254775536844200E-07,  0.000000000000000E+00], // 1,96,1:3
    [  0.194539852291400E-07,  0.228597966931700E-07,  0.000000000000000E+00], // 1,97,1:3
    [  0.184917151263800E-07,  0.191338656099400E-07,  0.000000000000000E+00], // 1,98,1:3
    [  0.164719983425400E-07,  0.180902052514700E-07,  0.000000000000000E+00], // 1,99,1:3
    [  0.152953076527300E-07,  0.164921330020100E-07,  0.000000000000000E+00], // 1,100,1:3
    [  0.143319933997800E-07,  0.183497279393200E-07,  0.000000000000000E+00], // 1,101,1:3
    [  0.172913419360200E-07,  0.143955064813800E-07,  0.000000000000000E+00], // 1,102,1:3
    [  0.171646393134600E-07,  0.148764545704100E-07,  0.000000000000000E+00], // 1,103,1:3
    [  0.139120606137800E-07,  0.173172951666000E-07,  0.000000000000000E+00], // 1,104,1:3
    [  0.140474666192400E-07,  0.171774716356700E-07,  0.000000000000000E+00], // 1,105,1:3
    [  0.141045239945500E-07,  0.141819043037400E-07,  0.000000000000000E+00], // 1,106,1:3
    [  0.108982877216800E-07,  0.140484413487300E-07,  0.000000000000000E+00], // 1,107,1:3
    [  0.104737456494800E-07,  0.140984284653800E-07,  0.000000000000000E+00], // 1,108,1:3
    [  0.135827912653200E-07,  0.109094834629100E-07,  0.000000000000000E+00], // 1,109,1:3
    [  0.102045647614800E-07,  0.135757732361200E-07,  0.000000000000000E+00], // 1,110,1:3
    [  0.103342873532800E-07,  0.101815406196000E-07,  0.000000000000000E+00], // 1,111,1:3
    [  0.141243584154000E-07,  0.141207397210900E-07,  0.000000000000000E+00], // 1,112,1:3
    [  0.972275937157400E-08,  0.103093832649600E-07,  0.000000000000000E+00], // 1,113,1:3
    [  0.965733408470400E-08,  0.118008156710400E-07,  0.000000000000000E+00], // 1,114,1:3
    [  0.108364114869000E-07,  0.970851057565000E-08,  0.000000000000000E+00], // 1,115,1:3
    [  0.106731840383800E-07,  0.963768966344700E-08,  0.000000000000000E+00], // 1,116,1:3
    [  0.106236620197600E-07,  0.106891042938900E-07,  0.000000000000000E+00], // 1,117,1:3
    [  0.123636414926600E-07,  0.106371617933600E-07,  0.000000000000000E+00], // 1,118,1:3
    [  0.109275948959300E-07,  0.123485871381400E-07,  0.000000000000000E+00], // 1,119,1:3
    [  0.891206936289900E-08,  0.891263118973800E-08,  0.000000000000000E+00], // 1,120,1:3
    [  0.965646770797000E-08,  0.103637828553400E-07,  0.000000000000000E+00], // 1,121,1:3
    [  0.809838615013500E-08,  0.966779850156100E-08,  0.000000000000000E+00], // 1,122,1:3
    [  0.785771467500000E-08,  0.810831420190200E-08,  0.000000000000000E+00], // 1,123,1:3
    [  0.728845594064600E-08,  0.764836432462800E-08,  0.000000000000000E+00], // 1,124,1:3
    [  0.945059595055200E-08,  0.728613682840600E-08,  0.000000000000000E+00], // 1,125,1:3
    [  0.938171824753700E-08,  0.944823774391300E-08,  0.000000000000000E+00], // 1,126,1:3
    [  0.707905264603800E-08,  0.937427610642800E-08,  0.000000000000000E+00], // 1,127,1:3
    [  0.925900441534400E-08,  0.710022628746200E-08,  0.000000000000000E+00], // 1,128,1:3
    [  0.825980149974200E-08,  0.925305665957100E-08,  0.000000000000000E+00], // 1,129,1:3
    [  0.647633435577900E-08,  0.663643214550400E-08,  0.000000000000000E+00], // 1,130,1:3
    [  0.598402149200700E-08,  0.646997531293200E-08,  0.000000000000000E+00], // 1,131,1:3
    [  0.598954686318100E-08,  0.733584972976500E-08,  0.000000000000000E+00], // 1,132,1:3
    [  0.623310860602300E-08,  0.874342120585500E-08,  0.000000000000000E+00], // 1,133,1:3
    [  0.687729914996500E-08,  0.599363574449400E-08,  0.000000000000000E+00], // 1,134,1:3
    [  0.831123422719000E-08,  0.598100847969300E-08,  0.000000000000000E+00], // 1,135,1:3
    [  0.659947283241400E-08,  0.618853514583800E-08,  0.000000000000000E+00], // 1,136,1:3
    [  0.616049109654900E-08,  0.659607401756600E-08,  0.000000000000000E+00], // 1,137,1:3
    [  0.616477204389100E-08,  0.663081512622600E-08,  0.000000000000000E+00], // 1,138,1:3
    [  0.636324868445000E-08,  0.615677283004000E-08,  0.000000000000000E+00], // 1,139,1:3
    [  0.644858752099900E-08,  0.644696056301400E-08,  0.000000000000000E+00], // 1,140,1:3
    [  0.643166228397700E-08,  0.642932442466800E-08,  0.000000000000000E+00], // 1,141,1:3
    [  0.635122315847400E-08,  0.630223239646500E-08,  0.000000000000000E+00], // 1,142,1:3
    [  0.547672139345100E-08,  0.639924443615900E-08,  0.000000000000000E+00], // 1,143,1:3
    [  0.534177257261900E-08,  0.547496517255800E-08,  0.000000000000000E+00], // 1,144,1:3
    [  0.533705575830200E-08,  0.533929319069200E-08,  0.000000000000000E+00], // 1,145,1:3
    [  0.537312081678700E-08,  0.533473368338900E-08,  0.000000000000000E+00], // 1,146,1:3
    [  0.539235170542600E-08,  0.539266578211000E-08,  0.000000000000000E+00], // 1,147,1:3
    [  0.668849585020500E-08,  0.668207567378900E-08,  0.000000000000000E+00], // 1,148,1:3
    [  0.507200366036200E-08,  0.507913049596000E-08,  0.000000000000000E+00], // 1,149,1:3
    [  0.507072665045500E-08,  0.507775979326100E-08,  0.000000000000000E+00], // 1,150,1:3
    [  0.565801295003200E-08,  0.483203736831000E-08,  0.000000000000000E+00], // 1,151,1:3
    [  0.483550992485400E-08,  0.646327967480200E-08,  0.000000000000000E+00], // 1,152,1:3
    [  0.647982197801200E-08,  0.624059277156000E-08,  0.000000000000000E+00], // 1,153,1:3
    [  0.623063649498000E-08,  0.467201352149300E-08,  0.000000000000000E+00], // 1,154,1:3
    [  0.464923951621300E-08,  0.650065075034800E-08,  0.000000000000000E+00], // 1,155,1:3
    [  0.648732579270000E-08,  0.634416138905300E-08,  0.000000000000000E+00], // 1,156,1:3
    [  0.468282368277000E-08,  0.468251837064600E-08,  0.000000000000000E+00], // 1,157,1:3
    [  0.570423080497600E-08,  0.532946001559100E-08,  0.000000000000000E+00], // 1,158,1:3
    [  0.612541358548900E-08,  0.570158867589800E-08,  0.000000000000000E+00], // 1,159,1:3
    [  0.603582503818700E-08,  0.603069086721100E-08,  0.000000000000000E+00], // 1,160,1:3
    [  0.433112346230300E-08,  0.433625631265500E-08,  0.000000000000000E+00], // 1,161,1:3
    [  0.468110768514300E-08,  0.468849880897500E-08,  0.000000000000000E+00], // 1,162,1:3
    [  0.466910582965500E-08,  0.467557860933500E-08,  0.000000000000000E+00], // 1,163,1:3
    [  0.513882360236500E-08,  0.422557811215800E-08,  0.000000000000000E+00], // 1,164,1:3
    [  0.461585666453400E-08,  0.513942223002800E-08,  0.000000000000000E+00], // 1,165,1:3
    [  0.449691670219700E-08,  0.461999509357100E-08,  0.000000000000000E+00], // 1,166,1:3
    [  0.427847904294500E-08,  0.449477625546100E-08,  0.000000000000000E+00], // 1,167,1:3
    [  0.384052550393200E-08,  0.427402627678800E-08,  0.000000000000000E+00], // 1,168,1:3
    [  0.486663650968500E-08,  0.501814178935300E-08,  0.000000000000000E+00], // 1,169,1:3
    [  0.352610063929600E-08,  0.486616395218100E-08,  0.000000000000000E+00], // 1,170,1:3
    [  0.393955848807500E-08,  0.411198602050100E-08,  0.000000000000000E+00], // 1,171,1:3
    [  0.404126877257600E-08,  0.335614278495000E-08,  0.000000000000000E+00], // 1,172,1:3
    [  0.394876184285300E-08,  0.407057555455100E-08,  0.000000000000000E+00], // 1,173,1:3
    [  0.325839455002900E-08,  0.325745185727800E-08,  0.000000000000000E+00], // 1,174,1:3
    [  0.325789704876100E-08,  0.325697370302600E-08,  0.000000000000000E+00], // 1,175,1:3
    [  0.384255903129800E-08,  0.383077150864000E-08,  0.000000000000000E+00], // 1,176,1:3
    [  0.310992009544800E-08,  0.372502400596200E-08,  0.000000000000000E+00], // 1,177,1:3
    [  0.313223777511900E-08,  0.313676392175600E-08,  0.000000000000000E+00], // 1,178,1:3
    [  0.394218942151000E-08,  0.379514725619400E-08,  0.000000000000000E+00], // 1,179,1:3
    [  0.379697228534000E-08,  0.287734222991100E-08,  0.000000000000000E+00], // 1,180,1:3
    [  0.399564023368800E-08,  0.307693179880500E-08,  0.000000000000000E+00], // 1,181,1:3
    [  0.287501372741400E-08,  0.273476594527300E-08,  0.000000000000000E+00], // 1,182,1:3
    [  0.307371993284400E-08,  0.273340529688500E-08,  0.000000000000000E+00], // 1,183,1:3
    [  0.273101658007500E-08,  0.289855235341000E-08,  0.000000000000000E+00], // 1,184,1:3
    [  0.272954989654600E-08,  0.289373610368100E-08,  0.000000000000000E+00], // 1,185,1:3
    [  0.333937289244900E-08,  0.309571773413700E-08,  0.000000000000000E+00], // 1,186,1:3
    [  0.289883376420400E-08,  0.263619042583200E-08,  0.000000000000000E+00], // 1,187,1:3
    [  0.289453654936200E-08,  0.364551209553700E-08,  0.000000000000000E+00], // 1,188,1:3
    [  0.309687247384300E-08,  0.280817354772300E-08,  0.000000000000000E+00], // 1,189,1:3
    [  0.263567232681000E-08,  0.262501286688800E-08,  0.000000000000000E+00], // 1,190,1:3
    [  0.364930269700100E-08,  0.257223399565100E-08,  0.000000000000000E+00], // 1,191,1:3
    [  0.312795458589500E-08,  0.260423882479200E-08,  0.000000000000000E+00], // 1,192,1:3
    [  0.261604017394700E-08,  0.259688638523900E-08,  0.000000000000000E+00], // 1,193,1:3
    [  0.259739585986000E-08,  0.322805730426400E-08,  0.000000000000000E+00], // 1,194,1:3
    [  0.259328617221000E-08,  0.248160179825200E-08,  0.000000000000000E+00], // 1,195,1:3
    [  0.248182358574700E-08,  0.274597749886400E-08,  0.000000000000000E+00], // 1,196,1:3
    [  0.274221955072500E-08,  0.266987883381100E-08,  0.000000000000000E+00], // 1,197,1:3
    [  0.319955846961000E-08,  0.320398661171100E-08,  0.000000000000000E+00], // 1,198,1:3
    [  0.266608854295700E-08,  0.335496122721200E-08,  0.000000000000000E+00], // 1,199,1:3
    [  0.239706743058000E-08,  0.240040732455800E-08,  0.000000000000000E+00], // 1,200,1:3
    [  0.237657077273800E-08,  0.237990585980200E-08,  0.000000000000000E+00], // 1,201,1:3
    [  0.254722800788700E-08,  0.255084430218700E-08,  0.000000000000000E+00], // 1,202,1:3
    [  0.226557559411400E-08,  0.226882421100100E-08,  0.000000000000000E+00], // 1,203,1:3
    [  0.246438143058500E-08,  0.246470089120400E-08,  0.000000000000000E+00], // 1,204,1:3
    [  0.243340852704400E-08,  0.243681472602400E-08,  0.000000000000000E+00], // 1,205,1:3
    [  0.244360550907600E-08,  0.244362389474500E-08,  0.000000000000000E+00], // 1,206,1:3
    [  0.231977926246500E-08,  0.231870178383800E-08,  0.000000000000000E+00], // 1,207,1:3
    [  0.228462283546500E-08,  0.228444870025600E-08,  0.000000000000000E+00], // 1,208,1:3
    [  0.246726875078300E-08,  0.246884812351000E-08,  0.000000000000000E+00], // 1,209,1:3
    [  0.280851349278200E-08,  0.281405235030300E-08,  0.000000000000000E+00], // 1,210,1:3
    [  0.232952893253200E-08,  0.224366275522000E-08,  0.000000000000000E+00], // 1,211,1:3
    [  0.969863953281700E-09,  0.233079585594100E-08,  0.000000000000000E+00], // 1,212,1:3
    [  0.000000000000000E+00,  0.975767903840400E-09,  0.000000000000000E+00], // 1,213,1:3
  ],
  [
    [  0.374107375178900E+01,  0.217046731367900E+01,  0.460791898916400E+00], // 2,1,1:3
    [  0.401601151142500E+01,  0.244443368219600E+01,  0.416914633129600E+00], // 2,2,1:3
    [  0.217052833064200E+01,  0.599277928154600E+00,  0.458265700713000E+01], // 2,3,1:3
    [  0.233961407529400E+01,  0.768735631080100E+00,  0.575873514248000E+01], // 2,4,1:3
    [  0.000000000000000E+00,  0.000000000000000E+00,  0.000000000000000E+00], // 2,5,1:3
    [  0.409073635330500E+01,  0.252003560151400E+01,  0.597880199462500E+01], // 2,6,1:3
    [  0.324151808814000E+01,  0.166995400644900E+01,  0.766541369104000E+00], // 2,7,1:3
    [  0.101220206433000E+01,  0.570774396334300E+01,  0.371020126583800E+01], // 2,8,1:3
    [  0.389252041644000E+01,  0.232096067993700E+01,  0.339067560580200E+00], // 2,9,1:3
    [  0.479777944116100E+01,  0.322694068955500E+01,  0.455229664008800E+00], // 2,10,1:3
    [  0.386896069793300E+01,  0.230162690809600E+01,  0.344545589932100E+01], // 2,11,1:3
    [  0.475976655739700E+00,  0.518857926554200E+01,  0.566467515064800E+01], // 2,12,1:3
    [  0.777496152059800E+00,  0.548948324847600E+01,  0.193189409569700E+01], // 2,13,1:3
    [  0.325465447146500E+01,  0.168375183526400E+01,  0.366631911557400E+00], // 2,14,1:3
    [  0.422763310348900E+01,  0.265640046296100E+01,  0.316741169902000E+01], // 2,15,1:3
    [  0.279182832571100E+00,  0.499277536205500E+01,  0.154442074658000E+01], // 2,16,1:3
    [  0.444045487592500E+01,  0.286970627967800E+01,  0.158375674007000E+01], // 2,17,1:3
    [  0.515639384235600E+01,  0.357213135995000E+01,  0.523994175828000E+01], // 2,18,1:3
    [  0.615700573009300E+01,  0.453537253004500E+01,  0.226695835285900E+01], // 2,19,1:3
    [  0.249456755316300E+01,  0.923015331790900E+00,  0.271149525035400E+01], // 2,20,1:3
    [  0.493431874798900E+01,  0.336314376110100E+01,  0.111620815139600E+01], // 2,21,1:3
    [  0.489507770264000E+01,  0.332425089567500E+01,  0.340861960020600E+01], // 2,22,1:3
    [  0.527839406476400E+01,  0.291788244192800E+00,  0.381045940108700E+01], // 2,23,1:3
    [  0.580297801909900E+01,  0.422099720248700E+01,  0.376991047364700E+01], // 2,24,1:3
    [  0.341534659519300E-01,  0.474731849646200E+01,  0.241699490337400E+01], // 2,25,1:3
    [  0.200164323075500E+01,  0.430505846240100E+00,  0.585850333699400E+01], // 2,26,1:3
    [  0.242475049162000E+01,  0.853817724074000E+00,  0.335417001012500E+00], // 2,27,1:3
    [  0.312331148757600E+01,  0.155180074258000E+01,  0.541060064632400E+01], // 2,28,1:3
    [  0.302625808813000E+01,  0.145964673537700E+01,  0.612021668140300E+01], // 2,29,1:3
    [  0.315781167034700E+01,  0.158735122871100E+01,  0.605544342614300E+01], // 2,30,1:3
    [  0.821957054231300E+00,  0.553444262876600E+01,  0.314610870800400E+01], // 2,31,1:3
    [  0.132305237523600E+01,  0.603067300329700E+01,  0.625549608981900E+00], // 2,32,1:3
    [  0.276534888159800E+00,  0.498950723392700E+01,  0.378260430026100E+01], // 2,33,1:3
    [  0.579406446638200E+01,  0.422295180457200E+01,  0.199777573319600E+01], // 2,34,1:3
    [  0.732355538078700E+00,  0.544431666912600E+01,  0.173631679208800E+00], // 2,35,1:3
    [  0.306246423539900E+01,  0.149055283978400E+01,  0.433194183074700E+01], // 2,36,1:3
    [  0.458829046966400E+01,  0.303047548604900E+01,  0.615201775182500E+01], // 2,37,1:3
    [  0.137429953657200E+01,  0.265203879363200E+01,  0.210179261463700E+00], // 2,38,1:3
    [  0.422226748504700E+01,  0.127674478682900E+01,  0.407183321107400E+01], // 2,39,1:3
    [  0.371420294497300E+01,  0.214336867473300E+01,  0.486163368814500E+00], // 2,40,1:3
    [  0.284797287588200E+01,  0.544418610907700E+01,  0.526819072430200E+01], // 2,41,1:3
    [  0.376207256338800E+01,  0.219052113759300E+01,  0.513454341710600E+01], // 2,42,1:3
    [  0.103604998003100E+01,  0.573519506484100E+01,  0.292021814668100E+01], // 2,43,1:3
    [  0.468238859907600E+00,  0.948198552485900E-01,  0.360457661910800E+01], // 2,44,1:3
    [  0.479056542541800E+01,  0.518049936153300E+01,  0.377294224979200E+01], // 2,45,1:3
    [  0.166914491221200E+01,  0.321978827388500E+01,  0.620041232988800E+01], // 2,46,1:3
    [  0.393771728161400E+01,  0.236694115976100E+01,  0.454335311343700E+01], // 2,47,1:3
    [  0.112916984509900E+00,  0.482544511091500E+01,  0.288218840623800E+01], // 2,48,1:3
    [  0.403000963848800E+01,  0.245714899530700E+01,  0.177664689278000E+01], // 2,49,1:3
    [  0.874595578683400E+00,  0.558629154545900E+01,  0.394961761124000E+01], // 2,50,1:3
    [  0.591974359896400E+01,  0.370800312332000E+01,  0.385925177507500E+01], // 2,51,1:3
    [  0.254914148488400E+01,  0.431063815156000E+01,  0.146629463120600E+01], // 2,52,1:3
    [  0.527753302023000E+01,  0.149466532265600E+01,  0.542177601170600E+01], // 2,53,1:3
    [  0.306468812777700E+01,  0.145137850078400E+01,  0.341204899332200E+01], // 2,54,1:3
    [  0.301143279909400E+01,  0.106804041819800E+01,  0.542164137099500E+00], // 2,55,1:3
    [  0.400556913235900E+01,  0.244257903546100E+01,  0.888731452499500E+00], // 2,56,1:3
    [  0.183137596663200E+01,  0.259791342062500E+00,  0.140504375719400E+01], // 2,57,1:3
    [  0.118027040757800E+01,  0.583451202128000E+01,  0.106004929344500E+01], // 2,58,1:3
    [  0.341410132086300E+00,  0.505403317795000E+01,  0.627085889744200E+01], // 2,59,1:3
    [  0.613047945259400E+00,  0.532567743245700E+01,  0.511756322330100E+01], // 2,60,1:3
    [  0.372476194884600E+01,  0.215340392385700E+01,  0.407909223798300E+01], // 2,61,1:3
    [  0.243542558936100E+01,  0.864284684702700E+00,  0.159491702170400E+01], // 2,62,1:3
    [  0.354214439875300E+01,  0.197062849621300E+01,  0.525878766756400E+01], // 2,63,1:3
    [  0.352505807235400E+01,  0.607330725060900E+01,  0.385458922547900E+01], // 2,64,1:3
    [  0.136429943198200E+01,  0.195437192833400E+01,  0.356132643018700E+01], // 2,65,1:3
    [  0.246047887580800E+01,  0.890498944090900E+00,  0.318073208683000E+00], // 2,66,1:3
    [  0.439732767070400E+01,  0.282571771497700E+01,  0.332479833505800E+01], // 2,67,1:3
    [  0.404264730890500E+01,  0.248167751333100E+01,  0.416906929194700E+00], // 2,68,1:3
    [  0.286504790608500E+01,  0.129295531297800E+01,  0.190056990821500E+01], // 2,69,1:3
    [  0.501427899421500E+01,  0.342751757506900E+01,  0.000000000000000E+00], // 2,70,1:3
    [  0.237673002049200E+01,  0.805219270149200E+00,  0.000000000000000E+00], // 2,71,1:3
    [  0.327299038424400E+01,  0.170507639008800E+01,  0.000000000000000E+00], // 2,72,1:3
    [  0.530229095513800E+01,  0.484835696789100E+00,  0.000000000000000E+00], // 2,73,1:3
    [  0.544414442533200E+01,  0.387806947390900E+01,  0.000000000000000E+00], // 2,74,1:3
    [  0.421535957920500E+01,  0.264556054412500E+01,  0.000000000000000E+00], // 2,75,1:3
    [  0.121891668991600E+00,  0.483448610137000E+01,  0.000000000000000E+00], // 2,76,1:3
    [  0.236940200221300E+01,  0.798147254890000E+00,  0.000000000000000E+00], // 2,77,1:3
    [  0.125492224240300E+01,  0.597939878828100E+01,  0.000000000000000E+00], // 2,78,1:3
    [  0.567971376043100E+01,  0.410865540275600E+01,  0.000000000000000E+00], // 2,79,1:3
    [  0.609721964164600E+00,  0.532262431928000E+01,  0.000000000000000E+00], // 2,80,1:3
    [  0.478623104143100E+01,  0.624081735928400E+01,  0.000000000000000E+00], // 2,81,1:3
    [  0.116736806813900E+01,  0.321497730115600E+01,  0.000000000000000E+00], // 2,82,1:3
    [  0.151947106431900E+01,  0.587980963476500E+01,  0.000000000000000E+00], // 2,83,1:3
    [  0.186053232298400E+01,  0.289337768800700E+00,  0.000000000000000E+00], // 2,84,1:3
    [  0.763285788715800E+00,  0.547542714412200E+01,  0.000000000000000E+00], // 2,85,1:3
    [  0.129821948528500E+01,  0.599203479664000E+01,  0.000000000000000E+00], // 2,86,1:3
    [  0.104651032106200E+01,  0.536735027391400E+01,  0.000000000000000E+00], // 2,87,1:3
    [  0.343452234619000E+01,  0.575817128542000E+01,  0.000000000000000E+00], // 2,88,1:3
    [  0.252376627031800E+01,  0.186371870092300E+01,  0.000000000000000E+00], // 2,89,1:3
    [  0.290442226019400E+01,  0.952434753413000E+00,  0.000000000000000E+00], // 2,90,1:3
    [  0.592390043114900E+00,  0.530447161560200E+01,  0.000000000000000E+00], // 2,91,1:3
    [  0.485194772256700E+01,  0.129706979353000E+01,  0.000000000000000E+00], // 2,92,1:3
    [  0.340049859549600E+01,  0.328112608337500E+01,  0.000000000000000E+00], // 2,93,1:3
    [  0.578909914867300E+01,  0.182912213316500E+01,  0.000000000000000E+00], // 2,94,1:3
    [  0.399185647979200E-01,  0.579719816018100E+01,  0.000000000000000E+00], // 2,95,1:3
    [  0.278856757705200E+01,  0.475269770833000E+01,  0.000000000000000E+00], // 2,96,1:3
    [  0.329089699817600E+01,  0.122320529288600E+01,  0.000000000000000E+00], // 2,97,1:3
    [  0.269806012936700E+01,  0.175753299338900E+01,  0.000000000000000E+00], // 2,98,1:3
    [  0.301673564408500E+01,  0.424611610879100E+01,  0.000000000000000E+00], // 2,99,1:3
    [  0.557304311617800E+01,  0.144516289062700E+01,  0.000000000000000E+00], // 2,100,1:3
    [  0.148119235614700E+01,  0.112691756722500E+01,  0.000000000000000E+00], // 2,101,1:3
    [  0.142281753893300E+01,  0.616075683476400E+01,  0.000000000000000E+00], // 2,102,1:3
    [  0.346946890185500E+01,  0.435876193179200E+01,  0.000000000000000E+00], // 2,103,1:3
    [  0.612243622054700E+01,  0.613445675334400E+01,  0.000000000000000E+00], // 2,104,1:3
    [  0.164776564193600E+01,  0.189818608445500E+01,  0.000000000000000E+00], // 2,105,1:3
    [  0.598972916196400E+01,  0.418028674126600E+01,  0.000000000000000E+00], // 2,106,1:3
    [  0.283370550937100E+01,  0.765405356541200E-01,  0.000000000000000E+00], // 2,107,1:3
    [  0.509069000733100E+00,  0.441861242031200E+01,  0.000000000000000E+00], // 2,108,1:3
    [  0.512899026283600E+01,  0.126061568613100E+01,  0.000000000000000E+00], // 2,109,1:3
    [  0.963277288080800E+00,  0.355824881869000E+01,  0.000000000000000E+00], // 2,110,1:3
    [  0.322377931841800E+01,  0.567608724125600E+01,  0.000000000000000E+00], // 2,111,1:3
    [  0.241027157272100E+01,  0.839439263242200E+00,  0.000000000000000E+00], // 2,112,1:3
    [  0.233353139569000E+01,  0.165359327406400E+01,  0.000000000000000E+00], // 2,113,1:3
    [  0.619927097416800E+01,  0.128580259203600E+01,  0.000000000000000E+00], // 2,114,1:3
    [  0.286422229292900E+01,  0.763188948810600E+00,  0.000000000000000E+00], // 2,115,1:3
    [  0.583345886656800E+00,  0.463064264917600E+01,  0.000000000000000E+00], // 2,116,1:3
    [  0.430775398949400E+01,  0.529493403216500E+01,  0.000000000000000E+00], // 2,117,1:3
    [  0.287391787059300E+01,  0.273626680083200E+01,  0.000000000000000E+00], // 2,118,1:3
    [  0.295988726673300E+01,  0.130289114657000E+01,  0.000000000000000E+00], // 2,119,1:3
    [  0.514121370256200E+01,  0.357041599362100E+01,  0.000000000000000E+00], // 2,120,1:3
    [  0.453218246232300E+01,  0.423669344094900E+01,  0.000000000000000E+00], // 2,121,1:3
    [  0.226890633837900E+01,  0.296076889239800E+01,  0.000000000000000E+00], // 2,122,1:3
    [  0.405554426074500E+01,  0.698778164684100E+00,  0.000000000000000E+00], // 2,123,1:3
    [  0.535790165514200E+01,  0.249901786386300E+01,  0.000000000000000E+00], // 2,124,1:3
    [  0.426492696393900E+01,  0.378742695166500E+01,  0.000000000000000E+00], // 2,125,1:3
    [  0.748936697657600E-01,  0.269435433298300E+01,  0.000000000000000E+00], // 2,126,1:3
    [  0.192331105287400E+01,  0.478712127706400E+01,  0.000000000000000E+00], // 2,127,1:3
    [  0.297025685343800E+01,  0.353023879210100E+00,  0.000000000000000E+00], // 2,128,1:3
    [  0.332705631469700E+01,  0.139947892566400E+01,  0.000000000000000E+00], // 2,129,1:3
    [  0.295492550572700E+01,  0.347957543844700E+01,  0.000000000000000E+00], // 2,130,1:3
    [  0.913875310582900E+00,  0.138366996480000E+01,  0.000000000000000E+00], // 2,131,1:3
    [  0.324446408203100E+01,  0.124369816689800E+01,  0.000000000000000E+00], // 2,132,1:3
    [  0.499523263840300E+00,  0.377616428930100E+01,  0.000000000000000E+00], // 2,133,1:3
    [  0.283498723344900E+01,  0.562712211359600E+01,  0.000000000000000E+00], // 2,134,1:3
    [  0.220295183575800E+01,  0.167433663675200E+01,  0.000000000000000E+00], // 2,135,1:3
    [  0.447858146261800E+01,  0.521492520867200E+01,  0.000000000000000E+00], // 2,136,1:3
    [  0.514585869641100E+01,  0.290765326812400E+01,  0.000000000000000E+00], // 2,137,1:3
    [  0.376297669791100E+00,  0.212764366965800E+01,  0.000000000000000E+00], // 2,138,1:3
    [  0.316224671868500E+01,  0.508216080329500E+01,  0.000000000000000E+00], // 2,139,1:3
    [  0.344269330211900E+01,  0.187210091690500E+01,  0.000000000000000E+00], // 2,140,1:3
    [  0.897754913660600E+00,  0.561027610357700E+01,  0.000000000000000E+00], // 2,141,1:3
    [  0.430644741036900E+01,  0.159215204960700E+01,  0.000000000000000E+00], // 2,142,1:3
    [  0.388852917785500E+01,  0.274621442153200E+01,  0.000000000000000E+00], // 2,143,1:3
    [  0.265556066251200E+01,  0.231766637438300E+01,  0.000000000000000E+00], // 2,144,1:3
    [  0.516499073594600E+01,  0.108472496115600E+01,  0.000000000000000E+00], // 2,145,1:3
    [  0.604121455345600E+01,  0.359410606774500E+01,  0.000000000000000E+00], // 2,146,1:3
    [  0.917776348593200E+00,  0.563025436560600E+01,  0.000000000000000E+00], // 2,147,1:3
    [  0.308960812693700E+01,  0.151848004173200E+01,  0.000000000000000E+00], // 2,148,1:3
    [  0.431131654155300E+01,  0.273976511571100E+01,  0.000000000000000E+00], // 2,149,1:3
    [  0.579067546444400E+00,  0.529071129009400E+01,  0.000000000000000E+00], // 2,150,1:3
    [  0.270394551067500E+01,  0.140447321720000E+01,  0.000000000000000E+00], // 2,151,1:3
    [  0.297542297606500E+01,  0.603838169521000E+01,  0.000000000000000E+00], // 2,152,1:3
    [  0.132416873311400E+01,  0.129017065366600E+01,  0.000000000000000E+00], // 2,153,1:3
    [  0.286010363283600E+01,  0.326189593967700E+01,  0.000000000000000E+00], // 2,154,1:3
    [  0.483225976340300E+01,  0.115452231209500E+01,  0.000000000000000E+00], // 2,155,1:3
    [  0.272616582504200E+01,  0.620611154506200E+01,  0.000000000000000E+00], // 2,156,1:3
    [  0.696660245540800E+00,  0.540911879668500E+01,  0.000000000000000E+00], // 2,157,1:3
    [  0.566963410460600E+01,  0.120298578486400E+01,  0.000000000000000E+00], // 2,158,1:3
    [  0.151338653891500E+01,  0.409871525706400E+01,  0.000000000000000E+00], // 2,159,1:3
    [  0.198350916822700E+01,  0.413203321846000E+00,  0.000000000000000E+00], // 2,160,1:3
    [  0.278289299280700E+01,  0.121141599182700E+01,  0.000000000000000E+00], // 2,161,1:3
    [  0.533723288683600E+01,  0.376547907240900E+01,  0.000000000000000E+00], // 2,162,1:3
    [  0.583713379216000E+01,  0.426554003722600E+01,  0.000000000000000E+00], // 2,163,1:3
    [  0.308056020050700E+01,  0.523756601067600E+01,  0.000000000000000E+00], // 2,164,1:3
    [  0.166174789747100E+01,  0.150717307951300E+01,  0.000000000000000E+00], // 2,165,1:3
    [  0.211250802706800E+01,  0.902395744984800E-01,  0.000000000000000E+00], // 2,166,1:3
    [  0.571652846262700E+01,  0.541493055213900E+00,  0.000000000000000E+00], // 2,167,1:3
    [  0.642417272649200E+00,  0.414573530365900E+01,  0.000000000000000E+00], // 2,168,1:3
    [  0.491924469771500E+01,  0.334440882905500E+01,  0.000000000000000E+00], // 2,169,1:3
    [  0.255082105273400E+01,  0.334853465760700E+01,  0.000000000000000E+00], // 2,170,1:3
    [  0.393933149171000E+01,  0.419882359722000E+00,  0.000000000000000E+00], // 2,171,1:3
    [  0.227533757121800E+01,  0.560914474718000E+01,  0.000000000000000E+00], // 2,172,1:3
    [  0.199932420079000E+01,  0.702841105922400E+00,  0.000000000000000E+00], // 2,173,1:3
    [  0.912100137820000E+00,  0.562469798308600E+01,  0.000000000000000E+00], // 2,174,1:3
    [  0.342842866086900E+01,  0.185784207670700E+01,  0.000000000000000E+00], // 2,175,1:3
    [  0.613292772003500E+01,  0.456288727993100E+01,  0.000000000000000E+00], // 2,176,1:3
    [  0.769365019300300E+00,  0.235805869265200E+00,  0.000000000000000E+00], // 2,177,1:3
    [  0.362129385490800E+01,  0.204973152684500E+01,  0.000000000000000E+00], // 2,178,1:3
    [  0.484186365973300E+01,  0.243235629693300E+00,  0.000000000000000E+00], // 2,179,1:3
    [  0.181417499426800E+01,  0.563110127938700E+01,  0.000000000000000E+00], // 2,180,1:3
    [  0.138699040609100E+01,  0.111761573739200E+01,  0.000000000000000E+00], // 2,181,1:3
    [  0.917831858717700E+00,  0.589982651695500E+01,  0.000000000000000E+00], // 2,182,1:3
    [  0.268892381183500E+01,  0.213056296407000E+01,  0.000000000000000E+00], // 2,183,1:3
    [  0.118825912758400E+01,  0.346238704822500E+00,  0.000000000000000E+00], // 2,184,1:3
    [  0.370216063427300E+01,  0.853435278154300E+00,  0.000000000000000E+00], // 2,185,1:3
    [  0.719916396033100E+00,  0.287506142904100E+01,  0.000000000000000E+00], // 2,186,1:3
    [  0.191670936499900E+01,  0.224251284665900E+01,  0.000000000000000E+00], // 2,187,1:3
    [  0.242404319554700E+01,  0.135401690395800E+01,  0.000000000000000E+00], // 2,188,1:3
    [  0.444589497749700E+01,  0.670511436563100E-01,  0.000000000000000E+00], // 2,189,1:3
    [  0.381436698411700E+01,  0.477570574848200E+01,  0.000000000000000E+00], // 2,190,1:3
    [  0.292420059608400E+01,  0.263892421613900E+01,  0.000000000000000E+00], // 2,191,1:3
    [  0.184225164832700E+01,  0.482635892737300E+01,  0.000000000000000E+00], // 2,192,1:3
    [  0.415584192198400E+01,  0.320038848311800E+01,  0.000000000000000E+00], // 2,193,1:3
    [  0.115804597887400E+00,  0.538484840956300E+01,  0.000000000000000E+00], // 2,194,1:3
    [  0.477185040869100E+01,  0.517337348774400E+01,  0.000000000000000E+00], // 2,195,1:3
    [  0.460884255888900E+00,  0.625096614985300E+01,  0.000000000000000E+00], // 2,196,1:3
    [  0.153878112702800E+01,  0.490600135249900E+01,  0.000000000000000E+00], // 2,197,1:3
    [  0.322664782287800E+00,  0.503433301000500E+01,  0.000000000000000E+00], // 2,198,1:3
    [  0.196799173121900E+00,  0.610826242313700E+01,  0.000000000000000E+00], // 2,199,1:3
    [  0.370703666987300E+01,  0.213539929495500E+01,  0.000000000000000E+00], // 2,200,1:3
    [  0.118208662804200E+01,  0.589372193396100E+01,  0.000000000000000E+00], // 2,201,1:3
    [  0.490625682062900E+01,  0.333194076206300E+01,  0.000000000000000E+00], // 2,202,1:3
    [  0.341494986685700E+01,  0.184341846103500E+01,  0.000000000000000E+00], // 2,203,1:3
    [  0.459912227537800E+01,  0.302954854723000E+01,  0.000000000000000E+00], // 2,204,1:3
    [  0.283075114544500E+00,  0.499471797036400E+01,  0.000000000000000E+00], // 2,205,1:3
    [  0.421204643253800E+01,  0.264510259137500E+01,  0.000000000000000E+00], // 2,206,1:3
    [  0.988197840863000E+00,  0.570054739789700E+01,  0.000000000000000E+00], // 2,207,1:3
    [  0.556534733158800E+00,  0.526889890587200E+01,  0.000000000000000E+00], // 2,208,1:3
    [  0.565570815076600E+00,  0.527628057507800E+01,  0.000000000000000E+00], // 2,209,1:3
    [  0.141840505340800E+01,  0.613016862347500E+01,  0.000000000000000E+00], // 2,210,1:3
    [  0.406955754567500E+01,  0.663169245799500E+00,  0.000000000000000E+00], // 2,211,1:3
    [  0.107413431363400E+01,  0.249943548770200E+01,  0.000000000000000E+00], // 2,212,1:3
    [  0.000000000000000E+00,  0.579684602312600E+01,  0.000000000000000E+00], // 2,213,1:3
  ],
  [
    [  0.529690972111800E+00,  0.529690972111800E+00,  0.213299079778300E+00], // 3,1,1:3
    [  0.213299079778300E+00,  0.213299079778300E+00,  0.529690972111800E+00], // 3,2,1:3
    [  0.381329181312000E-01,  0.381329181312000E-01,  0.381329181312000E-01], // 3,3,1:3
    [  0.747816656905000E-01,  0.747816656905000E-01,  0.747816656905000E-01], // 3,4,1:3
    [  0.000000000000000E+00,  0.000000000000000E+00,  0.000000000000000E+00], // 3,5,1:3
    [  0.105938194422400E+01,  0.105938194422400E+01,  0.426598159556600E+00], // 3,6,1:3
    [  0.426598159556600E+00,  0.426598159556600E+00,  0.105938194422400E+01], // 3,7,1:3
    [  0.206185625110400E+00,  0.206185625110400E+00,  0.206185625110400E+00], // 3,8,1:3
    [  0.220412534446200E+00,  0.220412534446200E+00,  0.220412534446200E+00], // 3,9,1:3
    [  0.149563331381000E+00,  0.149563331381000E+00,  0.522577517443900E+00], // 3,10,1:3
    [  0.522577517443900E+00,  0.522577517443900E+00,  0.536804426779700E+00], // 3,11,1:3
    [  0.536804426779700E+00,  0.536804426779700E+00,  0.366487475593000E-01], // 3,12,1:3
    [  0.762658362624000E-01,  0.762658362624000E-01,  0.149563331381000E+00], // 3,13,1:3
    [  0.366487475593000E-01,  0.366487475593000E-01,  0.396170887031000E-01], // 3,14,1:3
    [  0.396170887031000E-01,  0.396170887031000E-01,  0.762658362624000E-01], // 3,15,1:3
    [  0.732974951186000E-01,  0.732974951186000E-01,  0.711345466790000E-02], // 3,16,1:3
    [  0.158907291633500E+01,  0.158907291633500E+01,  0.110206267223100E+00], // 3,17,1:3
    [  0.711345466790000E-02,  0.711345466790000E-02,  0.639897239334900E+00], // 3,18,1:3
    [  0.419484704888700E+00,  0.419484704888700E+00,  0.316391892333500E+00], // 3,19,1:3
    [  0.639897239334900E+00,  0.639897239334900E+00,  0.419484704888700E+00], // 3,20,1:3
    [  0.110206267223100E+00,  0.110206267223100E+00,  0.158907291633500E+01], // 3,21,1:3
    [  0.628307585044600E+01,  0.628307585044600E+01,  0.102132855473900E+02], // 3,22,1:3
    [  0.103092812555200E+00,  0.103092812555200E+00,  0.253505050000000E-01], // 3,23,1:3
    [  0.316391892333500E+00,  0.316391892333500E+00,  0.732974951186000E-01], // 3,24,1:3
    [  0.102132855473900E+02,  0.102132855473900E+02,  0.103092812555200E+00], // 3,25,1:3
    [  0.148417057190000E-02,  0.148417057190000E-02,  0.433711614224500E+00], // 3,26,1:3
    [  0.632783784667000E+00,  0.632783784667000E+00,  0.148417057190000E-02], // 3,27,1:3
    [  0.433711614224500E+00,  0.433711614224500E+00,  0.632783784667000E+00], // 3,28,1:3
    [  0.105226848955600E+01,  0.105226848955600E+01,  0.116247475677900E+01], // 3,29,1:3
    [  0.116247475677900E+01,  0.116247475677900E+01,  0.105226848955600E+01], // 3,30,1:3
    [  0.106649539889200E+01,  0.106649539889200E+01,  0.846082864445300E+00], // 3,31,1:3
    [  0.949175677000500E+00,  0.949175677000500E+00,  0.334061243471700E+01], // 3,32,1:3
    [  0.846082864445300E+00,  0.846082864445300E+00,  0.106649539889200E+01], // 3,33,1:3
    [  0.148079160809100E+00,  0.148079160809100E+00,  0.202253162485100E+00], // 3,34,1:3
    [  0.224344997071500E+00,  0.224344997071500E+00,  0.351645769874000E-01], // 3,35,1:3
    [  0.334061243471700E+01,  0.334061243471700E+01,  0.949175677000500E+00], // 3,36,1:3
    [  0.351645769874000E-01,  0.351645769874000E-01,  0.296834114380000E-02], // 3,37,1:3
    [  0.637357483973000E-01,  0.110459172932000E-01,  0.227525989114100E+00], // 3,38,1:3
    [  0.110459172932000E-01,  0.411012592750000E-01,  0.507010100000000E-01], // 3,39,1:3
    [  0.151047501952900E+00,  0.151047501952900E+00,  0.209366617153000E+00], // 3,40,1:3
    [  0.411012592750000E-01,  0.637357483973000E-01,  0.411012592750000E-01], // 3,41,1:3
    [  0.227525989114100E+00,  0.227525989114100E+00,  0.260879031406000E+02], // 3,42,1:3
    [  0.253505050000000E-01,  0.253505050000000E-01,  0.148079160809100E+00], // 3,43,1:3
    [  0.858275829837000E-01,  0.718133245467000E-01,  0.217231542403600E+00], // 3,44,1:3
    [  0.211876388844700E+01,  0.858275829837000E-01,  0.637357483973000E-01], // 3,45,1:3
    [  0.718133245467000E-01,  0.211876388844700E+01,  0.323505347001400E+00], // 3,46,1:3
    [  0.296834114380000E-02,  0.296834114380000E-02,  0.853196319113200E+00], // 3,47,1:3
    [  0.777500068343000E-01,  0.777500068343000E-01,  0.718133245467000E-01], // 3,48,1:3
    [  0.209366617153000E+00,  0.209366617153000E+00,  0.742990051890100E+00], // 3,49,1:3
    [  0.217231542403600E+00,  0.217231542403600E+00,  0.777500068343000E-01], // 3,50,1:3
    [  0.202253162485100E+00,  0.742990051890100E+00,  0.199072170442500E+00], // 3,51,1:3
    [  0.735876597222200E+00,  0.202253162485100E+00,  0.211876388844700E+01], // 3,52,1:3
    [  0.742990051890100E+00,  0.323505347001400E+00,  0.110459172932000E-01], // 3,53,1:3
    [  0.323505347001400E+00,  0.138517414087800E+00,  0.224344997071500E+00], // 3,54,1:3
    [  0.138517414087800E+00,  0.735876597222200E+00,  0.515464062776000E+00], // 3,55,1:3
    [  0.515464062776000E+00,  0.515464062776000E+00,  0.151047501952900E+00], // 3,56,1:3
    [  0.853196319113200E+00,  0.853196319113200E+00,  0.142269093358000E-01], // 3,57,1:3
    [  0.199072170442500E+00,  0.199072170442500E+00,  0.117319721891000E+00], // 3,58,1:3
    [  0.543917881447600E+00,  0.543917881447600E+00,  0.216480071820900E+00], // 3,59,1:3
    [  0.525758509486500E+00,  0.525758509486500E+00,  0.647010694002800E+00], // 3,60,1:3
    [  0.533623434737100E+00,  0.533623434737100E+00,  0.210118087735700E+00], // 3,61,1:3
    [  0.147886664911200E+01,  0.147886664911200E+01,  0.309278437665600E+00], // 3,62,1:3
    [  0.216480071820900E+00,  0.216480071820900E+00,  0.415552242263400E+00], // 3,63,1:3
    [  0.169216572889100E+01,  0.210118087735700E+00,  0.858275829837000E-01], // 3,64,1:3
    [  0.210118087735700E+00,  0.169216572889100E+01,  0.525758509486500E+00], // 3,65,1:3
    [  0.415552242263400E+00,  0.415552242263400E+00,  0.138517414087800E+00], // 3,66,1:3
    [  0.117319721891000E+00,  0.117319721891000E+00,  0.543917881447600E+00], // 3,67,1:3
    [  0.126556756933400E+01,  0.126556756933400E+01,  0.533623434737100E+00], // 3,68,1:3
    [  0.956289131668400E+00,  0.956289131668400E+00,  0.521758062812000E+02], // 3,69,1:3
    [  0.142269093358000E-01,  0.142269093358000E-01,  0.000000000000000E+00], // 3,70,1:3
    [  0.647010694002800E+00,  0.647010694002800E+00,  0.000000000000000E+00], // 3,71,1:3
    [  0.158195946166700E+01,  0.158195946166700E+01,  0.000000000000000E+00], // 3,72,1:3
    [  0.959793578873000E-01,  0.959793578873000E-01,  0.000000000000000E+00], // 3,73,1:3
    [  0.708492030652000E-01,  0.708492030652000E-01,  0.000000000000000E+00], // 3,74,1:3
    [  0.526509980069200E+00,  0.526509980069200E+00,  0.000000000000000E+00], // 3,75,1:3
    [  0.532871964154400E+00,  0.532871964154400E+00,  0.000000000000000E+00], // 3,76,1:3
    [  0.787141283158000E-01,  0.787141283158000E-01,  0.000000000000000E+00], // 3,77,1:3
    [  0.260879031406000E+02,  0.260879031406000E+02,  0.000000000000000E+00], // 3,78,1:3
    [  0.111430413249800E+00,  0.111430413249800E+00,  0.000000000000000E+00], // 3,79,1:3
    [  0.137577383655700E+01,  0.137577383655700E+01,  0.000000000000000E+00], // 3,80,1:3
    [  0.114398754393600E+00,  0.277034828175600E+00,  0.000000000000000E+00], // 3,81,1:3
    [  0.159618637100300E+01,  0.114398754393600E+00,  0.000000000000000E+00], // 3,82,1:3
    [  0.277034828175600E+00,  0.159618637100300E+01,  0.000000000000000E+00], // 3,83,1:3
    [  0.222860826499600E+00,  0.222860826499600E+00,  0.000000000000000E+00], // 3,84,1:3
    [  0.146594990237200E+00,  0.146594990237200E+00,  0.000000000000000E+00], // 3,85,1:3
    [  0.507010100000000E-01,  0.507010100000000E-01,  0.000000000000000E+00], // 3,86,1:3
    [  0.490333907953900E+00,  0.309278437665600E+00,  0.000000000000000E+00], // 3,87,1:3
    [  0.299126662762000E+00,  0.490333907953900E+00,  0.000000000000000E+00], // 3,88,1:3
    [  0.351816493866100E+00,  0.299126662762000E+00,  0.000000000000000E+00], // 3,89,1:3
    [  0.625670329999100E+00,  0.351816493866100E+00,  0.000000000000000E+00], // 3,90,1:3
    [  0.109946242677900E+00,  0.109946242677900E+00,  0.000000000000000E+00], // 3,91,1:3
    [  0.125661517008900E+02,  0.625670329999100E+00,  0.000000000000000E+00], // 3,92,1:3
    [  0.668122486943500E+01,  0.125661517008900E+02,  0.000000000000000E+00], // 3,93,1:3
    [  0.336804064155000E-01,  0.668122486943500E+01,  0.000000000000000E+00], // 3,94,1:3
    [  0.116958821144700E+01,  0.393246262530000E-02,  0.000000000000000E+00], // 3,95,1:3
    [  0.104515503488800E+01,  0.116958821144700E+01,  0.000000000000000E+00], // 3,96,1:3
    [  0.115536130211100E+01,  0.104515503488800E+01,  0.000000000000000E+00], // 3,97,1:3
    [  0.445251171570000E-02,  0.115536130211100E+01,  0.000000000000000E+00], // 3,98,1:3
    [  0.440825068892400E+00,  0.336804064155000E-01,  0.000000000000000E+00], // 3,99,1:3
    [  0.652199189692000E-01,  0.440825068892400E+00,  0.000000000000000E+00], // 3,100,1:3
    [  0.942062222332600E+00,  0.445251171570000E-02,  0.000000000000000E+00], // 3,101,1:3
    [  0.210850787724900E+00,  0.942062222332600E+00,  0.000000000000000E+00], // 3,102,1:3
    [  0.215747371831700E+00,  0.412371250220800E+00,  0.000000000000000E+00], // 3,103,1:3
    [  0.412371250220800E+00,  0.210850787724900E+00,  0.000000000000000E+00], // 3,104,1:3
    [  0.425854298469000E-01,  0.215747371831700E+00,  0.000000000000000E+00], // 3,105,1:3
    [  0.225829167643400E+00,  0.652199189692000E-01,  0.000000000000000E+00], // 3,106,1:3
    [  0.422665696931300E+00,  0.425854298469000E-01,  0.000000000000000E+00], // 3,107,1:3
    [  0.309278437665600E+00,  0.225829167643400E+00,  0.000000000000000E+00], // 3,108,1:3
    [  0.792341774062000E-01,  0.422665696931300E+00,  0.000000000000000E+00], // 3,109,1:3
    [  0.145630868755700E+00,  0.792341774062000E-01,  0.000000000000000E+00], // 3,110,1:3
    [  0.179525854144600E+01,  0.145630868755700E+00,  0.000000000000000E+00], // 3,111,1:3
    [  0.152531672524800E+00,  0.152531672524800E+00,  0.000000000000000E+00], // 3,112,1:3
    [  0.843434124118000E-01,  0.179525854144600E+01,  0.000000000000000E+00], // 3,113,1:3
    [  0.127268102400200E+01,  0.703291539748000E-01,  0.000000000000000E+00], // 3,114,1:3
    [  0.703291539748000E-01,  0.843434124118000E-01,  0.000000000000000E+00], // 3,115,1:3
    [  0.212334958296800E+00,  0.127268102400200E+01,  0.000000000000000E+00], // 3,116,1:3
    [  0.214263201259800E+00,  0.212334958296800E+00,  0.000000000000000E+00], // 3,117,1:3
    [  0.184727908368400E+00,  0.214263201259800E+00,  0.000000000000000E+00], // 3,118,1:3
    [  0.137033243515900E+00,  0.184727908368400E+00,  0.000000000000000E+00], // 3,119,1:3
    [  0.264845486055900E+01,  0.264845486055900E+01,  0.000000000000000E+00], // 3,120,1:3
    [  0.437644076849800E+00,  0.137033243515900E+00,  0.000000000000000E+00], // 3,121,1:3
    [  0.288080745468800E+00,  0.437644076849800E+00,  0.000000000000000E+00], // 3,122,1:3
    [  0.203737333057000E+00,  0.288080745468800E+00,  0.000000000000000E+00], // 3,123,1:3
    [  0.112914583821700E+00,  0.203737333057000E+00,  0.000000000000000E+00], // 3,124,1:3
    [  0.527242680058400E+00,  0.112914583821700E+00,  0.000000000000000E+00], // 3,125,1:3
    [  0.532139264165200E+00,  0.527242680058400E+00,  0.000000000000000E+00], // 3,126,1:3
    [  0.628851322041700E+00,  0.532139264165200E+00,  0.000000000000000E+00], // 3,127,1:3
    [  0.160609248674200E+00,  0.628851322041700E+00,  0.000000000000000E+00], // 3,128,1:3
    [  0.838969409777400E+00,  0.160609248674200E+00,  0.000000000000000E+00], // 3,129,1:3
    [  0.200855762122400E+01,  0.136866038188900E+01,  0.000000000000000E+00], // 3,130,1:3
    [  0.204265710947700E+02,  0.200855762122400E+01,  0.000000000000000E+00], // 3,131,1:3
    [  0.211165043377900E+01,  0.956174672130000E-02,  0.000000000000000E+00], // 3,132,1:3
    [  0.430530622181900E+00,  0.380127640730800E+00,  0.000000000000000E+00], // 3,133,1:3
    [  0.956174672130000E-02,  0.204265710947700E+02,  0.000000000000000E+00], // 3,134,1:3
    [  0.380127640730800E+00,  0.211165043377900E+01,  0.000000000000000E+00], // 3,135,1:3
    [  0.106331440684900E+01,  0.430530622181900E+00,  0.000000000000000E+00], // 3,136,1:3
    [  0.136866038188900E+01,  0.106331440684900E+01,  0.000000000000000E+00], // 3,137,1:3
    [  0.423417167514000E+00,  0.838969409777400E+00,  0.000000000000000E+00], // 3,138,1:3
    [  0.125300878651000E-01,  0.423417167514000E+00,  0.000000000000000E+00], // 3,139,1:3
    [  0.528726850630300E+00,  0.528726850630300E+00,  0.000000000000000E+00], // 3,140,1:3
    [  0.530655093593300E+00,  0.530655093593300E+00,  0.000000000000000E+00], // 3,141,1:3
    [  0.521758062812000E+02,  0.125300878651000E-01,  0.000000000000000E+00], // 3,142,1:3
    [  0.222185670100200E+01,  0.521758062812000E+02,  0.000000000000000E+00], // 3,143,1:3
    [  0.746675969365000E-01,  0.222185670100200E+01,  0.000000000000000E+00], // 3,144,1:3
    [  0.748957344445000E-01,  0.746675969365000E-01,  0.000000000000000E+00], // 3,145,1:3
    [  0.127471496794600E+00,  0.748957344445000E-01,  0.000000000000000E+00], // 3,146,1:3
    [  0.105544948159800E+01,  0.105544948159800E+01,  0.000000000000000E+00], // 3,147,1:3
    [  0.221376655927700E+00,  0.221376655927700E+00,  0.000000000000000E+00], // 3,148,1:3
    [  0.213251706131900E+00,  0.213251706131900E+00,  0.000000000000000E+00], // 3,149,1:3
    [  0.213346453424700E+00,  0.213346453424700E+00,  0.000000000000000E+00], // 3,150,1:3
    [  0.728763142554300E+00,  0.716006736479000E-01,  0.000000000000000E+00], // 3,151,1:3
    [  0.716006736479000E-01,  0.220918345864000E-01,  0.000000000000000E+00], // 3,152,1:3
    [  0.220918345864000E-01,  0.330618801669300E+00,  0.000000000000000E+00], // 3,153,1:3
    [  0.330618801669300E+00,  0.779626577331000E-01,  0.000000000000000E+00], // 3,154,1:3
    [  0.779626577331000E-01,  0.388465241425400E+00,  0.000000000000000E+00], // 3,155,1:3
    [  0.388465241425400E+00,  0.760515150000000E-01,  0.000000000000000E+00], // 3,156,1:3
    [  0.107360885355900E+01,  0.107360885355900E+01,  0.000000000000000E+00], // 3,157,1:3
    [  0.873117535556000E-01,  0.728763142554300E+00,  0.000000000000000E+00], // 3,158,1:3
    [  0.760515150000000E-01,  0.873117535556000E-01,  0.000000000000000E+00], // 3,159,1:3
    [  0.984600278533100E+00,  0.984600278533100E+00,  0.000000000000000E+00], // 3,160,1:3
    [  0.429779151599200E+00,  0.429779151599200E+00,  0.000000000000000E+00], // 3,161,1:3
    [  0.212779030687900E+00,  0.212779030687900E+00,  0.000000000000000E+00], // 3,162,1:3
    [  0.213819128868700E+00,  0.213819128868700E+00,  0.000000000000000E+00], // 3,163,1:3
    [  0.723333736371000E-01,  0.340770576572900E+00,  0.000000000000000E+00], // 3,164,1:3
    [  0.860309773781100E+00,  0.723333736371000E-01,  0.000000000000000E+00], // 3,165,1:3
    [  0.738175442090000E-01,  0.860309773781100E+00,  0.000000000000000E+00], // 3,166,1:3
    [  0.757457871720000E-01,  0.738175442090000E-01,  0.000000000000000E+00], // 3,167,1:3
    [  0.340770576572900E+00,  0.757457871720000E-01,  0.000000000000000E+00], // 3,168,1:3
    [  0.772299577439000E-01,  0.318099204260000E-02,  0.000000000000000E+00], // 3,169,1:3
    [  0.622515778254000E-01,  0.772299577439000E-01,  0.000000000000000E+00], // 3,170,1:3
    [  0.526898311041000E-01,  0.145110819665300E+00,  0.000000000000000E+00], // 3,171,1:3
    [  0.350332323294200E+00,  0.127471496794600E+00,  0.000000000000000E+00], // 3,172,1:3
    [  0.145110819665300E+00,  0.350332323294200E+00,  0.000000000000000E+00], // 3,173,1:3
    [  0.529643598465400E+00,  0.529643598465400E+00,  0.000000000000000E+00], // 3,174,1:3
    [  0.529738345758200E+00,  0.529738345758200E+00,  0.000000000000000E+00], // 3,175,1:3
    [  0.909818612842600E+00,  0.909818612842600E+00,  0.000000000000000E+00], // 3,176,1:3
    [  0.393246262530000E-02,  0.108462072106000E+00,  0.000000000000000E+00], // 3,177,1:3
    [  0.234639443782000E+00,  0.234639443782000E+00,  0.000000000000000E+00], // 3,178,1:3
    [  0.318099204260000E-02,  0.186212078940300E+00,  0.000000000000000E+00], // 3,179,1:3
    [  0.186212078940300E+00,  0.190546480866900E+01,  0.000000000000000E+00], // 3,180,1:3
    [  0.454909306421300E+00,  0.362862411159300E+00,  0.000000000000000E+00], // 3,181,1:3
    [  0.190546480866900E+01,  0.213185011024300E+00,  0.000000000000000E+00], // 3,182,1:3
    [  0.362862411159300E+00,  0.213413148532300E+00,  0.000000000000000E+00], // 3,183,1:3
    [  0.213185011024300E+00,  0.529170923021400E+00,  0.000000000000000E+00], // 3,184,1:3
    [  0.213413148532300E+00,  0.530211021202200E+00,  0.000000000000000E+00], // 3,185,1:3
    [  0.200768991913200E+00,  0.297642492190100E+00,  0.000000000000000E+00], // 3,186,1:3
    [  0.529170923021400E+00,  0.148598010378000E+01,  0.000000000000000E+00], // 3,187,1:3
    [  0.530211021202200E+00,  0.604472637802300E+00,  0.000000000000000E+00], // 3,188,1:3
    [  0.297642492190100E+00,  0.622515778254000E-01,  0.000000000000000E+00], // 3,189,1:3
    [  0.148598010378000E+01,  0.526898311041000E-01,  0.000000000000000E+00], // 3,190,1:3
    [  0.604472637802300E+00,  0.125845411466600E+01,  0.000000000000000E+00], // 3,191,1:3
    [  0.108462072106000E+00,  0.210378112280900E+00,  0.000000000000000E+00], // 3,192,1:3
    [  0.125845411466600E+01,  0.216220047275700E+00,  0.000000000000000E+00], // 3,193,1:3
    [  0.210378112280900E+00,  0.200768991913200E+00,  0.000000000000000E+00], // 3,194,1:3
    [  0.216220047275700E+00,  0.106256293626600E+01,  0.000000000000000E+00], // 3,195,1:3
    [  0.106256293626600E+01,  0.565115573644400E+00,  0.000000000000000E+00], // 3,196,1:3
    [  0.565115573644400E+00,  0.140001584659700E+00,  0.000000000000000E+00], // 3,197,1:3
    [  0.703632987732200E+00,  0.703632987732200E+00,  0.000000000000000E+00], // 3,198,1:3
    [  0.140001584659700E+00,  0.454909306421300E+00,  0.000000000000000E+00], // 3,199,1:3
    [  0.212547609195600E+00,  0.212547609195600E+00,  0.000000000000000E+00], // 3,200,1:3
    [  0.214050550361000E+00,  0.214050550361000E+00,  0.000000000000000E+00], // 3,201,1:3
    [  0.153495794006300E+00,  0.153495794006300E+00,  0.000000000000000E+00], // 3,202,1:3
    [  0.223593526488800E+00,  0.223593526488800E+00,  0.000000000000000E+00], // 3,203,1:3
    [  0.209106592607800E+00,  0.209106592607800E+00,  0.000000000000000E+00], // 3,204,1:3
    [  0.217491566948800E+00,  0.217491566948800E+00,  0.000000000000000E+00], // 3,205,1:3
    [  0.173942015620400E+00,  0.173942015620400E+00,  0.000000000000000E+00], // 3,206,1:3
    [  0.753017147809000E-01,  0.753017147809000E-01,  0.000000000000000E+00], // 3,207,1:3
    [  0.742616166001000E-01,  0.742616166001000E-01,  0.000000000000000E+00], // 3,208,1:3
    [  0.252656143936200E+00,  0.252656143936200E+00,  0.000000000000000E+00], // 3,209,1:3
    [  0.563631403072500E+00,  0.563631403072500E+00,  0.000000000000000E+00], // 3,210,1:3
    [  0.105620095218100E+01,  0.888659032194000E-01,  0.000000000000000E+00], // 3,211,1:3
    [  0.782637094218000E+02,  0.105620095218100E+01,  0.000000000000000E+00], // 3,212,1:3
    [  0.000000000000000E+00,  0.782637094218000E+02,  0.000000000000000E+00], // 3,213,1:3
  ],
];
pub const S1 : [[[R;3];50];3] = [
  [
    [ -0.129631036152000E-07,  0.898904757357600E-08,  0.544422047567800E-08], // 1,1,1:3
    [  0.897576900943800E-08,  0.781593840104800E-08,  0.388341269559600E-08], // 1,2,1:3
    [  0.777111344130700E-08,  0.755092671328000E-08,  0.133434143455100E-08], // 1,3,1:3
    [  0.753830386664200E-08,  0.605655692589500E-08,  0.373000126688300E-09], // 1,4,1:3
    [  0.606138457933600E-08,  0.573414269820400E-08,  0.289492919795600E-09], // 1,5,1:3
    [  0.572699423559400E-08,  0.561434182245900E-08,  0.285795035770100E-09], // 1,6,1:3
    [  0.561649283642400E-08,  0.102867814765600E-08,  0.249922643229200E-09], // 1,7,1:3
    [  0.101088158476900E-08,  0.727079207526600E-09,  0.193770544359300E-09], // 1,8,1:3
    [  0.725960615762600E-09,  0.873414172604000E-09,  0.137489439632000E-09], // 1,9,1:3
    [  0.875509502693500E-09,  0.537737140211300E-09,  0.121724867840800E-09], // 1,10,1:3
    [  0.537049118281200E-09,  0.472971943157100E-09,  0.796105274087000E-10], // 1,11,1:3
    [  0.574377388766500E-09,  0.445805282097300E-09,  0.497922594968900E-10], // 1,12,1:3
    [  0.440810314030000E-09,  0.440685546790800E-09,  0.438855228659700E-10], // 1,13,1:3
    [  0.310189237444500E-09,  0.310165931097700E-09,  0.258683521256000E-10], // 1,14,1:3
    [  0.320945371357800E-09,  0.301674923254500E-09,  0.000000000000000E+00], // 1,15,1:3
    [  0.301722828606400E-09,  0.319854135265600E-09,  0.000000000000000E+00], // 1,16,1:3
    [  0.320070003860100E-09,  0.214206538987100E-09,  0.000000000000000E+00], // 1,17,1:3
    [  0.213763727991100E-09,  0.190261524759200E-09,  0.000000000000000E+00], // 1,18,1:3
    [  0.189968638672700E-09,  0.161341099087100E-09,  0.000000000000000E+00], // 1,19,1:3
    [  0.140199454530800E-09,  0.157699216509700E-09,  0.000000000000000E+00], // 1,20,1:3
    [  0.157805781049900E-09,  0.124163725989400E-09,  0.000000000000000E+00], // 1,21,1:3
    [  0.123771325335100E-09,  0.131397483035500E-09,  0.000000000000000E+00], // 1,22,1:3
    [  0.131307683739500E-09,  0.118169711825800E-09,  0.000000000000000E+00], // 1,23,1:3
    [  0.118496330486000E-09,  0.123823974277900E-09,  0.000000000000000E+00], // 1,24,1:3
    [  0.123813087856500E-09,  0.101010706824100E-09,  0.000000000000000E+00], // 1,25,1:3
    [  0.101595952773600E-09,  0.922631661650900E-10,  0.000000000000000E+00], // 1,26,1:3
    [  0.901795442371400E-10,  0.866494641955500E-10,  0.000000000000000E+00], // 1,27,1:3
    [  0.866802495560300E-10,  0.775723046897800E-10,  0.000000000000000E+00], // 1,28,1:3
    [  0.775608393010300E-10,  0.769316862813900E-10,  0.000000000000000E+00], // 1,29,1:3
    [  0.753650340174100E-10,  0.548789745461200E-10,  0.000000000000000E+00], // 1,30,1:3
    [  0.548330867933200E-10,  0.519611867721800E-10,  0.000000000000000E+00], // 1,31,1:3
    [  0.518433962042800E-10,  0.511085333993500E-10,  0.000000000000000E+00], // 1,32,1:3
    [  0.510865871203000E-10,  0.502780453481300E-10,  0.000000000000000E+00], // 1,33,1:3
    [  0.501942452465000E-10,  0.492248592267400E-10,  0.000000000000000E+00], // 1,34,1:3
    [  0.490931262597800E-10,  0.615559952440000E-10,  0.000000000000000E+00], // 1,35,1:3
    [  0.445663890110700E-10,  0.444714783216100E-10,  0.000000000000000E+00], // 1,36,1:3
    [  0.422703035092500E-10,  0.414469127642200E-10,  0.000000000000000E+00], // 1,37,1:3
    [  0.409545604009300E-10,  0.409995062545200E-10,  0.000000000000000E+00], // 1,38,1:3
    [  0.499053704142200E-10,  0.506054168295300E-10,  0.000000000000000E+00], // 1,39,1:3
    [  0.432117001084500E-10,  0.429361594630000E-10,  0.000000000000000E+00], // 1,40,1:3
    [  0.354407209180200E-10,  0.354565984576300E-10,  0.000000000000000E+00], // 1,41,1:3
    [  0.348019863868700E-10,  0.347911204119600E-10,  0.000000000000000E+00], // 1,42,1:3
    [  0.344028724443500E-10,  0.343851649357000E-10,  0.000000000000000E+00], // 1,43,1:3
    [  0.333062832271300E-10,  0.329734128503300E-10,  0.000000000000000E+00], // 1,44,1:3
    [  0.297306070718400E-10,  0.297258581801500E-10,  0.000000000000000E+00], // 1,45,1:3
    [  0.293260676608900E-10,  0.293170729501700E-10,  0.000000000000000E+00], // 1,46,1:3
    [  0.287697231095300E-10,  0.289719814940300E-10,  0.000000000000000E+00], // 1,47,1:3
    [  0.282748827855600E-10,  0.283229324087800E-10,  0.000000000000000E+00], // 1,48,1:3
    [  0.251502823975600E-10,  0.286434832661200E-10,  0.000000000000000E+00], // 1,49,1:3
    [  0.285303374441500E-10,  0.285271467547100E-10,  0.000000000000000E+00], // 1,50,1:3
  ],
  [
    [  0.000000000000000E+00,  0.584059367212200E+01,  0.180382550931000E+01], // 2,1,1:3
    [  0.112889160925000E+01,  0.112966470713300E+01,  0.466861638939200E+01], // 2,2,1:3
    [  0.270603987707700E+01,  0.619658910484500E+00,  0.000000000000000E+00], // 2,3,1:3
    [  0.219128128949800E+01,  0.167749466784600E+01,  0.540140591894300E+01], // 2,4,1:3
    [  0.324816731995800E+01,  0.400092085296200E+01,  0.493241560985200E+01], // 2,5,1:3
    [  0.556998139861000E+01,  0.348672257732800E+01,  0.315462536213100E+01], // 2,6,1:3
    [  0.505738661490900E+01,  0.187714102478700E+01,  0.365748612898800E+01], // 2,7,1:3
    [  0.347357711609500E+01,  0.507716730173900E+01,  0.574043467900200E+01], // 2,8,1:3
    [  0.365185859366500E+00,  0.906955028260900E-01,  0.171285736689100E+01], // 2,9,1:3
    [  0.166283540833800E+01,  0.603938184467100E+01,  0.231209087093200E+01], // 2,10,1:3
    [  0.132767387807700E+01,  0.215308631176000E+01,  0.528336855416300E+01], // 2,11,1:3
    [  0.425020084668700E+01,  0.505983002556500E+01,  0.429829047186000E+01], // 2,12,1:3
    [  0.359875257427700E+01,  0.202797169263000E+01,  0.614551504740600E+01], // 2,13,1:3
    [  0.488782298331900E+01,  0.331767798186000E+01,  0.301944800180900E+01], // 2,14,1:3
    [  0.970227229511400E+00,  0.391370348253200E+01,  0.000000000000000E+00], // 2,15,1:3
    [  0.548446227594900E+01,  0.127551309852500E+01,  0.000000000000000E+00], // 2,16,1:3
    [  0.284661333864300E+01,  0.530135161459700E+01,  0.000000000000000E+00], // 2,17,1:3
    [  0.569216329272900E+00,  0.489494335273600E+00,  0.000000000000000E+00], // 2,18,1:3
    [  0.206107715718900E+01,  0.244989113043700E+01,  0.000000000000000E+00], // 2,19,1:3
    [  0.417777113696700E+01,  0.421142144763300E+01,  0.000000000000000E+00], // 2,20,1:3
    [  0.578246059733500E+01,  0.414080336813300E+01,  0.000000000000000E+00], // 2,21,1:3
    [  0.570590086688100E+01,  0.359192030550300E+01,  0.000000000000000E+00], // 2,22,1:3
    [  0.516343817957600E+01,  0.150631438278800E+01,  0.000000000000000E+00], // 2,23,1:3
    [  0.305480442724200E+01,  0.746140537840400E+00,  0.000000000000000E+00], // 2,24,1:3
    [  0.231729257596200E+01,  0.627101079547500E+00,  0.000000000000000E+00], // 2,25,1:3
    [  0.219464364552600E+01,  0.125915883958300E+01,  0.000000000000000E+00], // 2,26,1:3
    [  0.286860354543500E+01,  0.335324469693400E+01,  0.000000000000000E+00], // 2,27,1:3
    [  0.492384967508200E+01,  0.144767729519600E+01,  0.000000000000000E+00], // 2,28,1:3
    [  0.301433413520000E+01,  0.112050989672100E+01,  0.000000000000000E+00], // 2,29,1:3
    [  0.270488627976900E+01,  0.443938042679500E+01,  0.000000000000000E+00], // 2,30,1:3
    [  0.601098367379900E+01,  0.378885661913700E+00,  0.000000000000000E+00], // 2,31,1:3
    [  0.195270457329100E+01,  0.138687937201600E+01,  0.000000000000000E+00], // 2,32,1:3
    [  0.295857578664900E+01,  0.164788180546600E+00,  0.000000000000000E+00], // 2,33,1:3
    [  0.173631762131800E+01,  0.159431507986200E+01,  0.000000000000000E+00], // 2,34,1:3
    [  0.316721641625700E+01,  0.000000000000000E+00,  0.000000000000000E+00], // 2,35,1:3
    [  0.769757992347100E+00,  0.548072091897600E+01,  0.000000000000000E+00], // 2,36,1:3
    [  0.349091013792800E+01,  0.193137103366000E+01,  0.000000000000000E+00], // 2,37,1:3
    [  0.517888898449100E+00,  0.522961129433500E+01,  0.000000000000000E+00], // 2,38,1:3
    [  0.332388766897400E+01,  0.173111248629800E+01,  0.000000000000000E+00], // 2,39,1:3
    [  0.428848498711800E+01,  0.271457103892500E+01,  0.000000000000000E+00], // 2,40,1:3
    [  0.602105157925100E+01,  0.445104144463400E+01,  0.000000000000000E+00], // 2,41,1:3
    [  0.460002705471400E+01,  0.302938544808100E+01,  0.000000000000000E+00], // 2,42,1:3
    [  0.434952597074200E+01,  0.277850714373100E+01,  0.000000000000000E+00], // 2,43,1:3
    [  0.234739150508200E+01,  0.789870980758400E+00,  0.000000000000000E+00], // 2,44,1:3
    [  0.478940928640000E+01,  0.321878531697300E+01,  0.000000000000000E+00], // 2,45,1:3
    [  0.583169379992700E+01,  0.426073101209800E+01,  0.000000000000000E+00], // 2,46,1:3
    [  0.269263851477100E+01,  0.112075397810100E+01,  0.000000000000000E+00], // 2,47,1:3
    [  0.205605248796000E+01,  0.459768271782700E+00,  0.000000000000000E+00], // 2,48,1:3
    [  0.741186326244900E+00,  0.216993992844800E+01,  0.000000000000000E+00], // 2,49,1:3
    [  0.394848102489400E+01,  0.237765987057800E+01,  0.000000000000000E+00], // 2,50,1:3
  ],
  [
    [  0.000000000000000E+00,  0.426598159556600E+00,  0.213299079778300E+00], // 3,1,1:3
    [  0.426598159556600E+00,  0.206185625110400E+00,  0.529690972111800E+00], // 3,2,1:3
    [  0.206185625110400E+00,  0.220412534446200E+00,  0.000000000000000E+00], // 3,3,1:3
    [  0.220412534446200E+00,  0.105938194422400E+01,  0.206185625110400E+00], // 3,4,1:3
    [  0.105938194422400E+01,  0.522577517443900E+00,  0.220412534446200E+00], // 3,5,1:3
    [  0.522577517443900E+00,  0.536804426779700E+00,  0.747816656905000E-01], // 3,6,1:3
    [  0.536804426779700E+00,  0.711345466790000E-02,  0.426598159556600E+00], // 3,7,1:3
    [  0.711345466790000E-02,  0.639897239334900E+00,  0.105938194422400E+01], // 3,8,1:3
    [  0.639897239334900E+00,  0.419484704888700E+00,  0.536804426779700E+00], // 3,9,1:3
    [  0.419484704888700E+00,  0.433711614224500E+00,  0.522577517443900E+00], // 3,10,1:3
    [  0.433711614224500E+00,  0.213299079778300E+00,  0.381329181312000E-01], // 3,11,1:3
    [  0.213299079778300E+00,  0.529690972111800E+00,  0.419484704888700E+00], // 3,12,1:3
    [  0.158907291633500E+01,  0.158907291633500E+01,  0.711345466790000E-02], // 3,13,1:3
    [  0.105226848955600E+01,  0.105226848955600E+01,  0.639897239334900E+00], // 3,14,1:3
    [  0.529690972111800E+00,  0.106649539889200E+01,  0.000000000000000E+00], // 3,15,1:3
    [  0.106649539889200E+01,  0.149563331381000E+00,  0.000000000000000E+00], // 3,16,1:3
    [  0.149563331381000E+00,  0.316391892333500E+00,  0.000000000000000E+00], // 3,17,1:3
    [  0.316391892333500E+00,  0.227525989114100E+00,  0.000000000000000E+00], // 3,18,1:3
    [  0.227525989114100E+00,  0.110206267223100E+00,  0.000000000000000E+00], // 3,19,1:3
    [  0.110206267223100E+00,  0.762658362624000E-01,  0.000000000000000E+00], // 3,20,1:3
    [  0.762658362624000E-01,  0.515464062776000E+00,  0.000000000000000E+00], // 3,21,1:3
    [  0.515464062776000E+00,  0.366487475593000E-01,  0.000000000000000E+00], // 3,22,1:3
    [  0.366487475593000E-01,  0.632783784667000E+00,  0.000000000000000E+00], // 3,23,1:3
    [  0.632783784667000E+00,  0.396170887031000E-01,  0.000000000000000E+00], // 3,24,1:3
    [  0.396170887031000E-01,  0.732974951186000E-01,  0.000000000000000E+00], // 3,25,1:3
    [  0.732974951186000E-01,  0.199072170442500E+00,  0.000000000000000E+00], // 3,26,1:3
    [  0.199072170442500E+00,  0.543917881447600E+00,  0.000000000000000E+00], // 3,27,1:3
    [  0.543917881447600E+00,  0.949175677000500E+00,  0.000000000000000E+00], // 3,28,1:3
    [  0.949175677000500E+00,  0.103092812555200E+00,  0.000000000000000E+00], // 3,29,1:3
    [  0.103092812555200E+00,  0.853196319113200E+00,  0.000000000000000E+00], // 3,30,1:3
    [  0.853196319113200E+00,  0.209366617153000E+00,  0.000000000000000E+00], // 3,31,1:3
    [  0.209366617153000E+00,  0.217231542403600E+00,  0.000000000000000E+00], // 3,32,1:3
    [  0.217231542403600E+00,  0.216480071820900E+00,  0.000000000000000E+00], // 3,33,1:3
    [  0.216480071820900E+00,  0.210118087735700E+00,  0.000000000000000E+00], // 3,34,1:3
    [  0.210118087735700E+00,  0.000000000000000E+00,  0.000000000000000E+00], // 3,35,1:3
    [  0.323505347001400E+00,  0.323505347001400E+00,  0.000000000000000E+00], // 3,36,1:3
    [  0.637357483973000E-01,  0.637357483973000E-01,  0.000000000000000E+00], // 3,37,1:3
    [  0.647010694002800E+00,  0.647010694002800E+00,  0.000000000000000E+00], // 3,38,1:3
    [  0.142269093358000E-01,  0.142269093358000E-01,  0.000000000000000E+00], // 3,39,1:3
    [  0.735876597222200E+00,  0.735876597222200E+00,  0.000000000000000E+00], // 3,40,1:3
    [  0.526509980069200E+00,  0.526509980069200E+00,  0.000000000000000E+00], // 3,41,1:3
    [  0.532871964154400E+00,  0.532871964154400E+00,  0.000000000000000E+00], // 3,42,1:3
    [  0.858275829837000E-01,  0.858275829837000E-01,  0.000000000000000E+00], // 3,43,1:3
    [  0.110459172932000E-01,  0.110459172932000E-01,  0.000000000000000E+00], // 3,44,1:3
    [  0.525758509486500E+00,  0.525758509486500E+00,  0.000000000000000E+00], // 3,45,1:3
    [  0.533623434737100E+00,  0.533623434737100E+00,  0.000000000000000E+00], // 3,46,1:3
    [  0.117319721891000E+00,  0.117319721891000E+00,  0.000000000000000E+00], // 3,47,1:3
    [  0.202253162485100E+00,  0.202253162485100E+00,  0.000000000000000E+00], // 3,48,1:3
    [  0.959793578873000E-01,  0.959793578873000E-01,  0.000000000000000E+00], // 3,49,1:3
    [  0.211876388844700E+01,  0.211876388844700E+01,  0.000000000000000E+00], // 3,50,1:3
  ],
];
pub const S2 : [[[R;3];9];3] = [
  [
    [  0.160355163658700E-11,  0.160911449509100E-11,  0.374992035805400E-12], // 1,1,1:3
    [  0.155693588938400E-11,  0.156033078494600E-11,  0.273503722093900E-12], // 1,2,1:3
    [  0.118259441491500E-11,  0.118353547920200E-11,  0.000000000000000E+00], // 1,3,1:3
    [  0.115879458318000E-11,  0.115818306618200E-11,  0.000000000000000E+00], // 1,4,1:3
    [  0.959735894393200E-12,  0.103286802740700E-11,  0.000000000000000E+00], // 1,5,1:3
    [  0.651151657960500E-12,  0.654014284774100E-12,  0.000000000000000E+00], // 1,6,1:3
    [  0.741979274768800E-12,  0.730523649159600E-12,  0.000000000000000E+00], // 1,7,1:3
    [  0.395197265584800E-12, -0.558072505296800E-12,  0.000000000000000E+00], // 1,8,1:3
    [  0.447822387704500E-12,  0.394612265101500E-12,  0.000000000000000E+00], // 1,9,1:3
  ],
  [
    [  0.440410941048100E+01,  0.283109699348100E+01,  0.323028555866800E+01], // 2,1,1:3
    [  0.481804087360300E+00,  0.519305821390600E+01,  0.615432268304600E+01], // 2,2,1:3
    [  0.993576273447200E+00,  0.570700344389000E+01,  0.000000000000000E+00], // 2,3,1:3
    [  0.335318096645000E+01,  0.178240040492800E+01,  0.000000000000000E+00], // 2,4,1:3
    [  0.556704535829800E+01,  0.403692545201100E+01,  0.000000000000000E+00], // 2,5,1:3
    [  0.563087242078800E+01,  0.405824105671700E+01,  0.000000000000000E+00], // 2,6,1:3
    [  0.215618858195700E+01,  0.617540194295700E+00,  0.000000000000000E+00], // 2,7,1:3
    [  0.198102254180500E+01,  0.000000000000000E+00,  0.000000000000000E+00], // 2,8,1:3
    [  0.000000000000000E+00,  0.410826527917100E+00,  0.000000000000000E+00], // 2,9,1:3
  ],
  [
    [  0.206185625110400E+00,  0.206185625110400E+00,  0.213299079778300E+00], // 3,1,1:3
    [  0.220412534446200E+00,  0.220412534446200E+00,  0.529690972111800E+00], // 3,2,1:3
    [  0.522577517443900E+00,  0.522577517443900E+00,  0.000000000000000E+00], // 3,3,1:3
    [  0.536804426779700E+00,  0.536804426779700E+00,  0.000000000000000E+00], // 3,4,1:3
    [  0.213299079778300E+00,  0.213299079778300E+00,  0.000000000000000E+00], // 3,5,1:3
    [  0.426598159556600E+00,  0.426598159556600E+00,  0.000000000000000E+00], // 3,6,1:3
    [  0.529690972111800E+00,  0.529690972111800E+00,  0.000000000000000E+00], // 3,7,1:3
    [  0.105938194422400E+01,  0.000000000000000E+00,  0.000000000000000E+00], // 3,8,1:3
    [  0.000000000000000E+00,  0.105938194422400E+01,  0.000000000000000E+00], // 3,9,1:3
  ],
];
