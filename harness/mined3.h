// Generated by tools/deep_tab.cc: n, E, number of detection events, (u, v, w, A0, A1) of each edge, detection events; -1: boundary or no correction
static const short DEEP[] = {
15,19,15,5,11,0,14,10,0,5,0,14,10,4,5,0,12,10,0,4,4,10,10,4,10,0,12,10,10,12,4,10,10,1,6,4,10,10,4,8,0,-1,10,3,11,4,-1,6,10,11,4,10,10,10,13,0,10,12,11,14,2,-1,8,1,10,0,10,14,4,6,0,14,10,1,9,2,-1,8,7,13,0,12,10,2,-1,2,-1,8,4,12,0,14,10,5,7,2,10,10,13,1,0,14,7,12,5,2,8,11,10,9,6,3,4,
13,17,13,3,11,0,8,8,4,9,0,12,8,3,7,0,8,8,0,6,0,8,8,11,12,0,8,8,4,5,2,-1,6,7,9,4,8,8,6,7,0,8,8,11,-1,4,8,4,10,11,0,12,8,6,8,0,-1,8,2,10,2,-1,6,0,12,0,8,8,3,10,4,8,8,1,11,0,-1,8,4,10,0,12,8,7,-1,4,8,4,6,8,0,12,4,7,9,5,1,11,2,10,3,
16,31,16,2,10,0,16,16,7,9,4,16,16,1,13,2,16,14,9,10,2,16,16,4,11,0,16,16,3,4,0,16,16,1,15,2,16,18,0,8,4,16,12,3,12,2,16,14,5,15,4,-1,12,4,10,0,16,16,7,11,0,16,16,1,10,0,16,16,6,9,0,18,16,4,6,0,16,18,8,14,4,16,12,2,7,0,16,16,13,-1,2,16,14,9,-1,2,16,16,7,12,4,16,14,6,10,4,16,16,0,-1,4,16,12,11,14,4,16,12,7,15,2,16,18,3,7,2,16,16,6,11,4,16,16,2,8,2,16,16,4,15,2,16,18,11,12,2,16,14,0,1,4,16,12,3,15,4,16,18,6,15,3,10,12,7,11,1,8,13,14,9,0,2,4,5,
15,29,15,0,12,2,12,12,10,12,4,12,12,0,6,4,12,10,8,14,0,12,12,5,11,4,12,12,3,4,0,14,12,5,8,0,12,12,11,14,4,12,12,9,10,0,14,12,1,13,4,-1,8,3,14,0,12,12,0,7,2,12,10,3,12,0,14,12,3,8,0,12,12,5,12,4,12,12,1,3,4,12,12,3,9,2,12,12,2,5,4,-1,8,10,-1,0,16,12,7,10,2,12,10,5,6,2,12,10,10,11,0,12,12,0,11,0,12,12,6,8,2,12,10,4,11,0,12,12,0,1,0,12,12,1,4,0,12,12,14,-1,4,12,12,4,10,2,12,12,8,0,1,12,14,7,5,2,3,4,11,9,6,10,13,
16,23,16,3,10,0,54,62,10,11,0,-1,54,0,6,0,54,58,7,15,2,58,52,7,-1,0,54,58,15,-1,6,54,52,12,14,2,54,56,13,15,6,54,52,6,13,0,58,54,9,15,12,54,48,7,9,8,54,50,0,7,0,58,54,3,8,12,-1,42,12,13,2,54,56,10,12,6,54,56,3,14,0,54,62,5,9,12,58,42,7,10,8,54,54,4,5,12,54,46,0,-1,10,54,54,4,14,8,58,46,2,12,10,-1,44,1,7,10,-1,44,2,5,3,6,13,1,0,12,15,10,14,11,7,4,9,8,
16,25,16,4,9,4,18,16,6,10,0,20,18,2,5,0,18,18,0,10,4,18,14,9,12,0,18,18,5,13,4,-1,14,6,9,2,18,18,4,11,2,18,16,11,14,2,18,18,1,-1,4,-1,14,8,10,0,18,18,4,-1,4,18,14,10,12,4,18,18,6,7,2,18,18,15,-1,4,18,14,2,8,4,18,18,8,12,0,18,18,7,9,0,18,18,8,14,0,20,18,3,8,0,-1,18,11,15,2,18,16,8,11,0,18,18,0,5,4,18,14,10,-1,2,18,16,2,7,0,18,18,8,2,10,15,6,12,14,3,5,1,0,9,13,4,7,11,
15,22,15,3,9,12,212,190,0,6,40,-1,162,14,-1,26,214,176,4,5,14,210,188,6,8,6,202,204,10,12,28,210,174,10,13,38,-1,164,11,14,16,202,198,3,5,20,202,192,9,11,0,202,212,1,6,0,202,212,3,6,40,202,180,8,-1,38,202,176,1,11,20,202,192,5,6,16,202,194,2,10,2,214,200,8,11,16,210,186,10,11,14,202,196,4,11,18,202,194,1,7,26,-1,176,2,14,22,202,192,4,12,30,202,180,2,4,7,14,13,5,12,6,3,9,8,0,10,1,11,
14,21,14,0,7,4,44,44,5,10,6,44,42,5,-1,4,44,44,9,11,2,44,46,7,11,2,48,42,8,13,10,46,34,5,11,4,44,44,0,4,8,48,36,6,-1,4,44,42,5,9,2,48,42,0,13,2,48,42,1,10,2,44,46,1,2,10,-1,34,1,11,4,44,44,4,9,12,44,36,8,-1,10,44,36,3,12,4,-1,40,0,10,4,48,40,6,13,2,46,42,0,9,10,44,44,3,4,0,44,-1,1,6,12,11,13,9,4,0,8,7,5,10,2,3,
15,28,15,8,-1,0,-1,14,7,10,0,14,14,3,8,0,14,14,7,14,0,14,14,6,8,0,14,14,1,6,4,14,14,0,6,4,14,10,4,11,2,16,12,0,14,4,14,10,7,8,2,14,14,5,6,4,14,12,6,9,2,14,14,3,6,2,14,14,4,7,4,14,12,10,13,4,-1,10,10,14,2,14,14,8,12,0,18,14,5,10,2,14,12,6,11,2,14,14,11,14,0,14,16,8,9,0,14,14,1,7,0,16,14,3,10,0,14,14,5,7,2,14,12,2,6,2,-1,12,7,12,4,14,14,7,9,0,14,14,1,14,2,14,14,2,10,12,11,9,0,4,6,14,5,7,3,8,1,13,
15,30,15,3,14,10,42,38,3,5,10,42,40,1,7,2,44,40,13,-1,6,48,36,1,13,6,42,42,2,13,4,42,44,7,-1,8,42,40,0,8,2,42,42,11,14,8,42,40,7,14,10,42,40,5,7,0,42,44,2,5,8,42,44,8,14,8,42,40,0,12,2,44,40,5,8,10,42,42,7,10,0,42,46,0,11,2,42,42,1,12,4,42,40,0,6,12,42,32,9,11,6,42,38,3,10,2,46,40,3,11,6,42,40,13,14,6,42,42,2,8,2,42,46,4,11,8,-1,34,6,8,12,44,30,1,5,4,42,40,8,11,2,42,42,2,14,4,48,38,5,9,6,44,36,10,1,9,4,11,0,8,6,7,12,3,14,2,5,13,
15,31,15,2,14,22,138,138,4,14,34,138,116,0,14,2,150,136,7,9,34,138,116,2,3,38,138,134,11,12,8,138,152,6,11,26,138,146,6,9,28,138,124,0,1,36,-1,102,4,7,40,138,114,3,5,22,142,116,0,7,4,150,134,0,2,32,138,136,3,12,4,138,138,3,10,4,138,154,10,14,12,138,146,9,12,22,150,116,11,13,36,138,152,8,14,4,138,162,10,-1,4,-1,134,3,14,24,138,142,4,6,36,150,102,5,12,22,138,120,6,8,34,138,140,3,6,8,138,142,2,11,12,160,126,7,11,26,138,142,6,13,26,138,140,7,10,28,138,140,8,13,0,166,138,5,14,32,138,122,10,0,8,14,11,2,3,12,9,1,13,4,6,7,5,
16,27,16,13,-1,4,16,-1,2,12,0,16,16,7,10,4,16,16,4,6,4,16,12,1,6,2,16,16,1,12,0,16,16,6,15,4,16,12,0,10,0,20,16,0,9,0,16,16,8,14,0,16,16,7,11,4,16,12,2,9,2,16,16,11,12,4,16,12,0,8,0,16,16,2,14,2,16,16,7,15,4,16,12,3,5,4,16,12,3,14,4,16,12,0,13,0,18,16,4,5,4,16,12,7,9,2,16,16,8,9,0,16,16,1,5,2,16,16,12,13,2,16,16,1,14,0,16,16,2,8,0,16,16,2,3,4,16,12,8,4,6,14,13,1,15,7,11,10,2,12,9,5,0,3,
16,29,16,15,-1,2,16,16,1,13,4,18,12,4,5,2,18,14,0,15,0,18,16,11,13,4,16,14,4,9,0,18,16,0,12,4,16,16,11,-1,2,16,14,3,-1,0,16,16,1,7,4,16,14,6,15,2,16,14,11,15,2,16,14,7,12,2,16,16,3,12,0,16,16,4,10,0,16,16,10,12,0,16,16,3,5,4,16,14,7,13,2,16,16,6,7,2,16,14,2,15,4,16,16,4,13,2,16,16,8,13,2,-1,14,2,3,0,20,16,13,14,4,-1,12,9,-1,2,16,16,4,7,0,16,16,0,4,2,16,16,4,15,2,16,16,7,11,2,16,14,0,14,13,8,11,1,10,12,9,7,6,3,15,2,5,4,
15,29,15,1,5,14,154,136,8,10,24,150,150,9,11,18,150,136,1,2,26,150,130,7,9,14,150,138,6,-1,14,150,138,6,8,8,150,148,4,13,34,150,118,7,11,8,150,150,7,8,0,150,156,10,-1,38,150,140,0,7,10,154,140,7,10,0,160,150,3,10,38,150,122,2,13,16,156,134,1,9,14,152,136,3,11,28,160,122,6,14,26,152,124,5,11,14,150,140,0,5,30,150,126,8,12,4,-1,146,2,6,36,150,126,7,-1,10,152,140,1,13,10,150,146,9,14,36,150,120,1,4,28,152,122,13,14,18,150,134,0,9,26,150,128,5,-1,34,150,126,12,14,8,13,0,6,7,4,2,1,11,3,9,10,5,
15,27,15,10,-1,10,48,42,4,10,2,48,48,7,-1,6,48,42,12,-1,6,48,42,8,10,8,50,40,4,13,12,-1,36,0,2,12,48,46,7,12,4,48,48,2,7,10,48,46,0,4,2,48,46,3,5,10,48,38,8,11,12,48,38,1,2,0,48,48,3,7,8,48,42,1,3,8,48,40,2,11,4,50,44,0,3,6,48,42,5,12,4,48,44,2,14,0,48,48,0,9,6,-1,42,6,7,2,48,46,2,4,0,48,48,6,12,2,48,46,6,14,0,48,48,5,14,8,48,44,3,10,12,48,40,10,11,10,48,46,3,2,12,10,8,5,7,4,14,6,1,0,9,13,11,
16,31,16,1,4,14,188,180,9,10,28,188,162,1,9,38,188,172,3,4,32,194,156,13,14,36,188,182,1,10,28,188,166,6,7,8,188,200,12,13,2,196,186,1,12,6,192,182,7,-1,4,192,184,11,12,12,188,178,7,11,10,188,182,6,8,10,188,198,1,8,8,188,184,12,15,20,188,182,15,-1,2,192,186,5,8,38,-1,150,8,9,22,188,178,3,-1,34,188,160,1,3,30,188,170,8,13,10,188,188,8,-1,12,188,186,0,15,34,188,158,11,14,14,190,174,8,14,6,188,186,0,9,40,190,148,0,14,32,188,158,10,12,16,190,172,11,13,20,188,176,2,6,34,-1,154,8,11,32,188,180,8,5,4,0,2,9,7,11,6,13,1,3,15,10,12,14,
16,28,16,9,10,0,20,18,0,-1,2,18,18,8,13,2,18,20,5,12,4,18,14,7,11,4,18,14,1,2,0,18,18,2,5,2,18,16,4,8,0,22,18,0,10,2,20,16,3,15,2,18,16,2,6,4,18,14,6,10,4,18,14,7,9,2,18,20,3,14,4,18,14,1,15,2,18,18,1,5,2,18,16,2,-1,4,18,18,5,15,2,18,16,3,9,4,18,16,4,10,4,18,20,7,13,2,18,20,13,-1,2,18,18,4,7,0,18,18,2,13,0,20,18,6,15,4,18,14,10,14,2,18,16,4,11,4,18,14,10,12,2,18,16,8,1,6,13,15,12,10,11,3,0,9,7,14,5,4,2,
15,24,15,7,13,40,138,104,0,10,16,138,136,7,10,2,138,140,3,5,40,-1,98,2,14,4,164,134,8,14,30,138,134,8,10,0,164,138,1,10,22,138,138,1,13,36,144,102,5,9,12,138,-1,4,10,8,138,138,0,-1,8,142,130,4,9,4,164,134,1,4,0,138,144,6,7,0,142,138,0,6,4,138,138,8,9,30,138,134,1,2,20,138,138,10,-1,6,138,136,2,12,32,138,122,4,12,24,138,120,2,13,36,138,118,10,12,24,144,114,10,11,22,-1,116,9,8,5,11,12,4,2,3,14,7,1,10,6,0,13,
15,22,15,1,-1,16,178,176,7,11,34,178,180,5,7,4,178,182,1,9,2,178,178,6,14,28,178,164,0,1,34,-1,144,3,13,20,178,162,1,5,10,178,170,12,13,20,182,158,2,6,12,182,166,3,8,10,182,168,14,-1,32,192,146,11,-1,38,178,180,1,8,10,178,172,4,7,30,-1,148,5,9,10,180,168,9,-1,18,178,176,6,9,2,178,180,6,11,6,178,208,2,12,14,178,168,7,13,30,178,156,10,11,30,-1,148,7,9,1,4,8,10,14,0,5,12,11,6,13,3,2,
15,28,15,11,12,2,14,12,2,9,2,14,14,4,5,2,14,14,3,14,0,14,14,0,5,4,14,10,5,-1,4,14,10,11,14,2,14,12,12,13,0,14,16,1,4,0,14,16,7,14,4,14,14,3,10,0,14,14,9,13,0,16,14,5,10,0,14,14,8,14,4,14,12,2,3,2,14,14,3,9,2,14,14,2,4,0,16,14,7,10,0,18,14,10,13,2,14,14,6,14,2,-1,12,0,12,4,14,10,4,10,4,14,14,1,8,2,14,12,1,10,2,14,14,8,12,2,14,12,1,-1,4,14,10,5,11,4,14,12,8,13,4,14,12,9,3,0,12,14,6,10,8,7,5,4,13,11,2,1,
15,19,15,4,10,4,28,26,9,13,4,-1,24,0,14,0,-1,28,0,9,4,28,28,0,12,0,28,32,10,-1,2,-1,26,0,2,2,30,26,2,5,4,-1,24,7,10,4,28,26,0,11,0,-1,28,4,12,2,30,26,2,3,0,30,28,1,12,4,30,24,7,9,4,30,24,1,9,4,28,26,6,9,4,-1,24,0,3,4,28,26,8,12,2,-1,26,9,10,4,28,28,1,8,7,12,5,2,13,9,6,3,4,0,14,11,10,
15,20,15,7,11,0,24,22,7,-1,4,22,20,2,5,4,22,20,5,11,4,24,18,3,10,2,-1,20,13,-1,0,24,22,6,11,4,22,20,0,1,2,22,-1,2,9,2,-1,20,10,13,0,22,22,6,13,0,22,22,2,13,4,22,20,10,11,2,22,20,0,11,4,22,18,0,6,2,22,20,2,10,4,22,20,1,4,0,-1,22,1,8,4,-1,18,10,12,2,-1,20,1,14,4,-1,18,1,7,14,3,2,4,9,10,0,5,6,13,8,12,11,
14,27,13,0,4,4,22,24,5,12,12,22,18,1,4,12,22,18,10,12,6,22,16,10,13,6,22,16,2,4,4,22,22,1,8,6,22,20,6,9,8,22,24,0,2,2,26,20,4,8,2,26,20,9,-1,12,22,22,0,12,8,22,20,7,13,2,22,20,9,12,6,22,26,11,12,4,22,22,7,12,2,22,20,3,10,12,22,16,7,8,0,26,22,1,10,12,22,16,0,11,2,22,24,1,7,2,26,20,1,2,8,22,20,11,-1,6,34,16,4,10,10,22,16,5,8,2,28,20,3,6,0,32,22,3,5,0,22,28,5,1,6,10,3,13,7,2,8,4,11,12,0,
14,26,14,3,9,18,176,154,11,-1,4,172,172,3,12,12,172,164,5,-1,12,172,168,0,5,12,172,170,6,12,2,176,170,8,11,30,-1,142,11,12,24,172,160,1,11,24,172,152,2,6,4,172,172,7,9,22,172,160,4,5,18,172,162,0,3,24,172,158,2,7,36,172,164,2,5,8,172,174,5,7,10,182,162,4,10,38,180,134,9,10,30,172,150,2,11,40,172,158,4,11,36,172,146,0,13,36,182,136,12,13,30,172,152,2,-1,16,172,162,1,2,38,176,134,0,2,30,172,168,9,-1,18,172,158,4,3,7,12,2,0,6,1,10,9,13,11,5,8,
15,20,15,6,9,2,70,58,5,10,6,60,54,0,5,0,60,60,11,14,12,-1,48,4,5,6,60,64,6,10,8,60,52,1,10,10,60,60,7,8,12,-1,48,7,13,12,60,68,3,4,12,-1,48,0,12,4,60,56,11,-1,4,-1,56,6,7,6,60,74,5,6,12,60,58,11,13,4,-1,56,4,13,4,60,66,6,12,2,60,58,9,13,4,60,66,1,2,4,70,56,2,4,6,60,64,1,11,7,2,12,6,3,4,0,5,14,13,9,8,10,
15,24,15,5,14,24,146,124,4,7,30,146,144,1,9,36,146,140,5,9,14,146,136,7,12,16,148,130,2,14,34,146,128,2,7,2,160,144,1,10,26,146,144,3,7,12,148,134,2,5,32,146,128,8,9,6,146,142,8,14,20,148,126,0,6,26,146,124,1,11,10,146,138,9,11,2,148,144,6,10,34,150,112,1,2,24,146,144,1,-1,30,-1,116,1,3,12,146,136,0,13,16,-1,130,4,12,14,146,134,4,5,14,148,132,7,10,6,146,144,0,14,22,146,128,4,1,14,5,7,2,8,3,11,10,12,9,13,0,6,
16,20,15,6,9,0,70,66,15,-1,8,66,66,7,12,6,66,64,6,7,12,66,62,7,8,12,66,62,10,11,2,-1,64,4,-1,2,74,64,11,12,10,70,56,6,11,0,66,70,0,10,4,-1,62,4,8,10,74,56,12,15,2,66,72,3,9,12,-1,54,4,5,10,-1,56,10,14,2,-1,64,4,12,10,66,66,2,11,0,-1,66,1,15,2,-1,64,9,13,12,-1,54,7,9,8,66,62,13,0,6,14,4,10,1,11,9,12,5,8,2,15,3,
15,22,15,1,7,4,18,14,4,8,0,20,18,4,10,2,18,18,5,10,4,-1,14,12,14,2,-1,16,3,8,4,18,18,7,14,0,18,18,8,13,4,18,18,2,3,0,-1,18,4,7,2,18,18,4,13,0,18,18,3,10,0,20,18,3,11,4,18,16,8,14,2,18,18,1,6,4,18,-1,1,13,4,18,14,3,9,0,-1,18,11,14,2,20,16,10,13,0,20,18,4,14,0,18,18,0,6,2,-1,16,14,-1,4,-1,14,9,4,12,1,8,7,6,3,11,10,13,5,14,2,0,
16,22,15,8,11,0,18,20,5,8,0,20,18,0,7,2,18,18,0,2,2,18,18,9,14,0,18,20,7,15,2,-1,16,2,9,2,18,18,0,-1,4,18,18,0,14,0,20,18,1,14,4,-1,14,9,13,0,22,18,2,7,2,20,16,3,14,4,-1,14,0,11,0,18,22,6,-1,4,18,18,5,11,2,18,18,2,6,4,18,18,6,9,4,18,18,12,13,2,-1,16,11,-1,0,22,18,7,10,4,-1,14,6,13,0,22,18,0,5,7,6,2,10,1,11,3,9,12,15,14,13,8,
14,16,14,2,11,2,24,24,7,9,4,-1,20,10,11,2,-1,22,11,12,2,-1,22,0,13,0,24,24,4,6,2,26,22,5,13,4,24,20,0,8,4,26,20,1,2,2,26,22,0,11,0,26,24,4,8,4,24,22,0,3,4,-1,20,0,5,4,24,20,2,4,4,24,24,4,7,0,24,-1,1,6,4,24,22,2,3,6,5,9,12,7,4,11,13,0,10,8,1,
16,23,16,12,13,8,54,56,2,4,10,-1,44,5,9,4,54,50,7,11,10,54,46,6,12,6,64,48,5,10,2,54,52,7,10,4,56,50,9,11,10,54,52,2,14,8,-1,46,1,13,2,64,52,1,2,4,54,52,8,11,6,54,50,3,12,12,54,56,10,15,4,54,50,0,11,4,-1,50,8,-1,8,54,52,9,15,2,54,52,8,9,8,56,46,2,3,6,56,48,10,-1,8,54,52,1,11,10,54,54,1,3,4,54,52,6,7,8,54,56,8,3,15,6,1,10,4,7,5,12,11,14,9,2,0,13,
16,33,16,1,2,0,6,4,6,12,0,4,4,1,9,0,4,4,11,15,0,4,4,0,13,4,4,4,0,12,0,4,4,2,8,2,4,4,6,15,0,4,4,6,11,2,4,4,9,14,0,4,4,7,8,4,6,0,4,15,0,4,4,4,11,4,4,4,6,-1,2,4,4,0,1,0,4,4,10,13,0,4,4,0,15,0,4,4,4,7,4,4,2,10,14,0,4,4,0,14,0,4,4,1,6,2,4,4,8,9,4,4,4,6,10,2,4,4,11,13,0,4,4,3,5,0,-1,4,14,15,4,4,4,9,-1,4,4,4,4,10,0,4,4,1,10,4,4,4,15,-1,0,4,6,3,13,0,4,-1,13,15,4,4,4,2,15,4,4,4,5,8,3,4,11,12,15,14,1,6,13,9,0,2,7,10,
16,26,16,1,7,38,-1,162,11,-1,2,200,212,3,14,30,-1,170,8,14,28,200,192,11,15,4,212,196,6,11,28,200,204,4,5,2,-1,198,0,7,18,-1,182,14,-1,38,200,208,10,-1,32,200,182,4,6,30,200,204,8,10,40,200,178,2,8,34,200,178,4,9,26,200,192,11,12,24,220,176,8,9,28,200,186,12,13,40,200,186,7,13,20,226,180,6,8,22,212,178,9,10,34,214,166,4,11,0,212,200,9,13,26,200,202,2,4,8,212,192,7,-1,28,200,198,6,15,12,200,200,12,14,30,200,190,5,14,12,3,6,1,11,8,0,13,2,7,10,4,15,9,
13,19,13,3,-1,40,122,82,7,8,0,122,126,2,9,38,122,118,2,5,2,156,120,4,-1,24,122,98,0,7,4,-1,118,5,12,38,122,118,1,6,28,122,94,8,9,4,122,118,1,8,36,122,86,7,9,28,122,118,4,6,8,122,114,6,10,24,-1,98,3,5,18,122,104,7,12,2,126,120,7,11,10,-1,112,4,5,2,122,120,5,9,2,122,120,4,12,6,122,120,11,4,1,7,6,9,2,0,8,5,10,3,12,
15,20,15,9,14,0,16,16,2,8,0,18,16,1,13,4,16,12,3,6,4,16,16,4,6,0,16,20,3,8,2,16,16,9,12,0,16,16,1,12,4,16,12,2,9,2,16,16,5,11,4,-1,12,2,4,0,18,16,0,4,0,16,18,6,7,2,-1,14,0,-1,4,18,12,2,10,2,-1,14,13,14,0,16,16,4,11,0,16,-1,12,-1,4,16,14,3,12,0,18,16,4,14,2,16,16,0,14,4,9,8,11,1,13,3,10,12,7,6,5,2,
16,31,16,1,12,2,66,66,5,9,10,68,56,9,15,6,66,64,3,6,12,66,62,9,13,8,66,62,6,12,8,66,66,2,-1,8,66,66,14,15,8,70,58,2,3,8,66,62,4,8,12,-1,54,10,12,8,68,58,6,13,4,66,66,1,-1,10,66,68,2,12,6,66,62,9,10,10,66,58,4,11,2,66,70,2,4,4,66,66,14,-1,6,66,68,1,14,6,66,64,1,9,12,66,66,9,-1,12,66,70,3,13,8,70,58,3,14,12,66,62,5,12,10,66,58,3,9,12,66,64,0,6,4,-1,62,7,11,10,-1,56,4,6,2,66,68,9,11,4,66,68,1,2,6,68,60,3,12,6,66,64,10,1,12,6,2,0,3,13,8,4,7,14,11,9,5,15,
14,16,11,8,10,2,20,20,3,4,4,20,22,4,5,2,26,18,10,-1,2,22,18,6,13,2,22,18,2,8,4,22,16,3,8,2,20,24,7,13,2,20,20,6,10,2,20,20,0,1,4,-1,16,7,9,4,-1,16,13,-1,4,20,18,5,7,4,20,22,2,11,2,20,20,0,3,2,-1,18,7,11,0,20,22,9,2,1,13,8,6,4,10,5,7,3,
8,10,8,0,7,10,122,120,5,7,36,122,86,0,1,16,130,106,4,7,18,122,104,3,6,26,-1,96,3,5,34,122,88,3,4,16,122,106,5,-1,0,122,-1,1,3,16,122,114,2,3,28,-1,94,7,2,0,3,6,1,4,5,
14,26,14,1,7,8,62,62,2,3,12,62,60,0,1,10,62,54,0,9,4,62,62,6,-1,6,62,58,0,2,8,64,54,6,12,12,64,50,2,7,8,62,60,5,9,4,62,62,5,-1,12,62,64,2,12,10,62,54,4,8,8,62,58,3,-1,10,62,58,5,11,8,-1,54,2,9,12,62,58,9,10,12,-1,50,3,6,0,62,66,5,8,10,62,58,4,-1,12,62,60,3,8,2,66,60,4,9,12,62,60,5,7,6,62,60,4,7,6,66,56,1,-1,4,64,58,13,-1,10,-1,52,3,4,10,62,60,3,11,0,1,2,9,7,10,13,5,12,4,6,8,
16,27,16,3,4,4,14,14,4,12,0,18,14,1,7,0,16,14,8,9,4,18,10,6,15,2,14,14,0,1,2,14,14,6,13,4,14,16,2,3,2,14,16,6,8,2,14,16,11,12,4,14,14,5,12,4,-1,10,2,14,2,18,12,2,11,4,14,16,7,12,0,18,14,2,15,0,16,14,0,7,0,16,14,3,14,4,14,14,0,11,0,18,14,0,13,0,20,14,1,2,2,14,16,7,-1,2,14,-1,10,12,4,14,14,3,6,4,14,16,4,14,4,14,14,7,9,4,14,14,3,10,4,18,10,2,6,0,16,14,9,4,1,5,14,2,10,3,13,12,15,0,7,11,8,6,
13,19,13,2,5,14,220,186,2,9,2,200,198,0,10,40,200,160,4,10,24,200,176,7,8,30,200,190,2,7,14,200,186,1,-1,36,210,164,0,9,20,200,180,6,8,8,200,212,1,2,28,200,182,8,11,32,-1,168,4,9,32,200,196,8,12,40,200,184,2,3,36,-1,164,6,12,24,220,176,0,-1,36,200,174,8,9,38,200,202,5,12,34,200,186,4,7,16,200,184,1,3,2,12,4,9,11,10,5,0,8,6,7,
16,19,16,3,12,0,48,48,2,4,8,48,40,3,9,0,48,48,2,9,4,48,44,14,15,10,48,50,5,14,10,-1,38,8,13,0,58,48,4,12,4,48,44,1,14,10,48,50,7,13,4,48,54,1,15,8,60,40,0,1,2,-1,46,3,10,12,-1,36,1,9,4,48,54,1,7,2,58,46,3,8,4,48,54,9,14,12,48,54,6,11,6,-1,42,9,-1,6,48,-1,12,6,4,7,9,10,2,15,5,8,13,0,1,3,14,11,
16,28,16,1,6,2,12,10,11,14,4,12,10,8,15,2,12,12,4,11,0,12,12,2,11,4,12,10,10,15,0,12,12,9,11,4,-1,8,1,7,2,12,12,2,15,4,12,12,7,10,0,12,12,1,15,4,12,12,0,4,4,12,8,8,14,0,14,12,8,12,0,12,12,1,3,2,12,10,10,11,2,12,10,2,13,0,16,12,6,7,2,12,10,5,-1,0,12,-1,2,5,0,12,12,5,12,0,12,12,7,13,4,12,12,4,14,4,12,10,0,6,4,12,8,2,8,0,12,12,1,5,0,12,12,3,10,2,12,10,5,15,0,12,12,2,10,12,15,14,3,0,4,6,13,7,9,1,8,11,5,
15,20,15,0,12,34,164,130,1,3,26,164,186,3,9,34,-1,130,7,13,12,164,152,2,14,12,178,152,4,11,24,188,140,1,4,34,164,186,1,6,30,164,182,5,7,38,164,126,1,10,10,-1,154,4,-1,26,164,162,10,12,20,164,-1,3,6,32,164,156,0,14,10,164,168,5,12,4,164,160,2,7,16,164,162,0,13,12,164,152,6,-1,30,188,134,3,11,20,164,168,8,12,4,-1,160,12,5,1,2,6,0,13,10,7,8,14,3,4,9,11,
16,30,16,3,12,0,10,12,0,5,4,10,10,7,9,4,10,10,9,14,0,14,10,4,5,4,10,8,0,4,2,12,8,1,12,0,12,10,6,9,0,12,10,7,13,4,10,10,3,4,4,10,8,1,4,4,10,8,0,6,0,10,12,3,6,4,10,10,12,14,4,10,10,11,13,0,12,10,2,9,4,10,8,5,13,0,10,12,9,13,0,12,10,3,9,2,10,10,7,11,0,14,10,3,5,0,12,10,2,5,4,10,8,1,-1,0,10,12,2,11,2,12,8,12,15,0,-1,10,10,13,2,-1,8,8,12,4,-1,6,6,7,4,10,10,6,-1,4,10,10,5,-1,2,10,10,5,10,6,2,8,15,11,0,3,7,9,13,14,12,4,1,
13,21,13,2,5,0,40,44,6,8,10,40,42,6,7,0,48,40,3,7,8,40,42,8,9,8,44,32,0,7,2,40,50,0,5,12,40,40,3,10,0,50,40,4,10,8,-1,32,7,12,6,40,42,1,10,12,40,32,9,12,10,40,34,5,6,6,40,38,8,11,4,40,40,1,6,10,40,34,0,-1,10,-1,30,5,12,6,40,38,2,10,6,40,40,10,12,2,44,38,1,2,12,44,28,5,11,0,44,40,0,11,8,6,9,10,3,5,7,4,1,2,12,
9,16,9,3,-1,28,116,98,4,5,20,118,96,1,6,12,116,112,1,3,16,116,112,7,8,6,116,118,3,6,16,124,100,1,7,22,116,114,0,7,36,124,80,3,5,36,116,108,1,4,26,116,92,2,5,26,-1,90,0,8,38,116,86,3,8,12,116,112,1,5,4,118,112,8,-1,14,126,102,5,7,2,116,122,0,5,7,8,2,3,1,6,4,
10,16,10,1,5,12,88,76,0,2,8,88,86,1,4,10,88,78,1,3,6,88,84,2,7,40,88,76,0,7,10,88,82,2,3,10,88,78,0,9,24,92,64,3,4,14,88,74,1,6,10,88,84,6,9,34,88,58,5,8,28,88,60,6,7,16,92,72,4,5,36,88,68,2,8,22,88,66,5,-1,8,88,-1,4,9,6,7,2,1,5,8,3,0,
14,26,14,5,10,4,132,130,0,9,10,140,122,6,7,16,132,140,6,10,28,132,142,8,12,38,134,94,1,7,32,-1,100,7,10,16,132,126,6,9,12,132,146,0,7,16,132,124,5,12,6,132,128,7,11,12,132,124,3,11,18,132,116,2,10,22,132,134,4,13,24,132,110,2,11,28,132,132,3,13,36,132,100,3,9,18,132,122,3,10,16,134,116,7,8,28,132,106,10,13,24,132,116,3,-1,28,132,138,2,6,8,156,124,4,11,8,134,124,4,-1,18,132,148,7,13,26,132,108,5,13,20,134,112,11,4,1,0,2,7,12,13,10,3,8,9,5,6,
14,26,14,11,-1,8,52,46,6,8,2,-1,50,0,-1,0,52,54,12,-1,12,52,42,3,8,2,52,54,10,13,12,52,50,2,11,8,52,48,8,10,4,52,54,0,3,6,54,46,9,13,8,52,48,11,13,10,52,50,3,7,2,52,52,7,12,6,54,46,3,-1,10,52,46,9,11,4,54,48,2,9,8,52,50,10,-1,12,52,48,4,5,12,-1,40,1,5,12,-1,40,9,10,12,52,50,3,9,4,52,50,5,8,0,52,56,2,10,6,56,46,2,8,10,52,50,5,13,4,56,48,0,10,8,52,48,1,4,13,8,0,9,5,11,6,12,3,2,7,10,
16,27,16,2,7,6,42,46,7,13,12,42,36,0,10,10,-1,32,1,6,2,42,42,11,15,6,42,38,2,14,8,42,44,2,12,12,-1,30,5,13,12,42,38,0,5,10,42,42,5,11,2,42,40,6,7,2,42,42,0,4,6,-1,36,3,6,4,-1,38,0,1,0,42,42,7,8,6,42,42,1,2,8,42,46,6,-1,2,42,-1,13,15,2,48,40,13,14,10,42,40,0,14,2,42,40,14,15,0,42,42,5,14,6,42,40,9,11,2,42,40,7,15,4,42,38,5,8,2,42,40,7,9,2,42,40,1,8,2,42,40,15,0,3,12,9,14,1,11,4,2,6,13,7,10,5,8,
13,18,13,3,8,10,38,38,2,3,4,38,38,4,11,6,44,32,1,7,0,38,40,6,7,2,40,36,1,4,10,38,34,5,-1,12,-1,26,0,2,0,42,38,8,10,0,38,42,1,9,12,40,26,7,12,4,40,34,3,10,0,42,38,0,12,6,38,36,7,8,2,42,36,5,12,8,38,32,5,9,10,38,30,0,11,0,38,44,1,6,4,38,36,0,2,10,9,11,5,3,12,6,1,8,7,4,
16,29,16,4,9,4,-1,8,0,9,2,12,12,3,15,0,14,12,1,15,2,12,12,5,9,4,12,10,11,12,2,14,10,6,12,0,14,12,3,9,0,12,12,0,12,0,14,12,0,8,0,12,12,5,6,4,12,10,2,7,4,-1,8,0,5,2,12,10,3,10,0,-1,12,7,-1,4,12,12,12,13,2,12,12,1,7,0,14,12,9,14,0,12,12,8,13,4,12,12,3,11,4,12,10,6,11,4,12,10,1,-1,0,12,16,0,14,4,12,12,1,5,2,12,10,3,14,0,12,12,3,6,4,12,12,9,13,0,12,14,1,8,0,12,12,7,13,0,14,12,0,14,10,4,6,3,8,1,11,9,12,7,15,5,2,13,
16,31,16,11,15,2,18,18,9,15,4,18,18,7,15,4,18,18,14,-1,4,18,22,12,-1,4,18,22,5,9,2,18,16,3,9,0,18,18,3,12,0,20,18,14,15,4,18,18,6,11,2,18,18,9,11,0,20,18,3,13,4,18,16,6,13,4,18,16,13,15,4,20,14,6,7,0,18,18,6,-1,4,18,22,10,14,0,22,18,1,10,2,-1,16,2,3,2,18,16,0,9,0,-1,18,9,12,2,18,18,8,10,4,-1,14,2,6,2,18,16,5,15,4,18,16,4,9,4,-1,14,7,14,0,18,18,3,14,0,18,18,2,15,4,18,16,2,5,4,18,14,10,15,4,18,18,3,6,4,18,18,6,2,15,5,4,0,12,3,11,8,14,13,9,7,1,10,
16,21,16,2,-1,0,44,44,1,11,4,44,44,6,8,0,50,44,3,10,8,44,-1,5,12,2,44,42,7,12,8,-1,36,0,-1,0,44,44,1,2,4,52,40,0,10,8,-1,36,1,4,2,44,46,2,9,0,52,44,8,13,8,50,36,4,11,2,48,42,3,14,8,-1,36,4,13,6,44,44,8,15,4,-1,40,4,6,8,44,42,2,12,0,44,44,0,5,2,44,42,0,2,2,44,44,9,13,10,44,42,5,0,11,12,14,9,2,6,3,13,15,1,7,4,8,10,
16,34,16,14,15,2,12,12,8,13,0,12,12,12,13,2,12,10,1,9,2,12,10,8,11,4,12,8,1,10,2,12,10,2,5,0,12,12,0,10,0,12,12,0,3,0,12,12,5,13,0,12,12,3,6,0,12,12,0,2,2,12,12,11,-1,4,12,8,0,9,0,12,12,3,13,2,12,12,3,15,2,12,12,5,7,4,12,8,1,8,4,12,10,6,13,0,12,12,7,15,4,12,8,2,10,0,12,12,6,11,4,12,8,5,10,4,12,12,4,13,0,-1,12,10,14,4,12,12,8,9,0,12,12,3,5,0,12,12,1,2,4,12,10,3,-1,0,12,12,5,12,2,12,10,10,12,2,12,10,2,15,4,12,12,0,14,0,14,12,6,15,0,12,12,11,9,4,7,2,6,5,15,3,1,14,12,0,10,13,8,
16,34,16,1,10,4,30,26,4,5,0,30,30,5,14,12,30,30,2,5,2,30,30,0,4,8,30,22,1,2,12,30,28,2,11,2,30,28,5,15,10,30,30,7,8,8,30,30,6,13,6,32,24,1,8,12,30,28,2,-1,4,30,30,2,15,0,30,30,2,4,0,30,30,3,12,8,30,22,9,13,0,30,30,3,15,2,30,28,0,8,8,30,22,6,14,12,30,22,7,10,4,30,28,7,12,6,30,24,7,13,8,30,28,3,6,12,30,20,2,10,2,30,28,7,9,2,30,28,4,8,0,30,30,4,13,12,30,28,10,-1,2,30,32,3,5,2,30,28,1,11,4,30,26,6,11,12,30,20,10,13,12,30,26,8,14,0,34,30,2,13,2,30,28,4,11,3,6,8,12,14,10,5,2,13,0,15,9,1,7,
16,23,16,4,5,38,198,178,3,6,6,218,192,0,14,22,198,186,0,9,34,-1,164,1,7,20,198,-1,5,15,4,202,194,7,12,10,208,188,1,8,28,-1,170,6,10,34,-1,164,6,15,4,198,198,5,6,4,198,198,2,13,38,198,180,3,11,16,198,202,4,11,30,198,188,2,12,12,198,196,2,11,38,198,206,2,4,18,216,180,12,-1,22,198,-1,2,15,12,198,200,11,13,30,218,168,0,2,20,198,188,7,15,0,198,208,6,14,34,208,164,6,10,0,1,14,11,13,9,8,15,7,2,12,3,4,5,
10,13,10,2,-1,28,168,146,6,8,32,194,136,6,7,22,168,172,3,-1,28,168,146,5,9,28,168,146,1,9,20,168,158,0,4,34,178,134,1,7,24,178,144,8,9,40,168,154,3,9,40,174,128,4,7,34,168,144,0,2,24,168,154,2,5,38,174,130,9,0,5,8,2,6,1,7,3,4,
14,24,14,5,6,24,96,70,8,10,8,94,90,1,6,38,94,58,2,11,24,98,70,3,10,10,98,84,10,12,2,98,92,4,13,6,98,88,2,9,20,94,78,3,4,10,94,88,5,-1,16,94,-1,2,12,28,94,76,11,13,14,94,84,3,8,38,94,80,7,10,4,108,90,6,11,32,94,66,5,12,10,94,92,7,8,22,94,86,0,9,4,-1,90,1,5,12,96,82,5,8,8,98,86,9,12,2,94,96,10,13,32,94,88,3,11,36,94,80,5,11,10,94,90,7,8,11,4,2,0,6,13,1,12,3,9,10,5,
16,26,16,4,13,2,10,8,5,13,0,10,10,10,15,2,10,10,1,13,0,10,10,4,14,4,10,8,11,15,2,10,-1,6,8,0,-1,10,5,10,2,10,8,3,5,2,-1,8,1,8,0,10,10,1,4,4,10,8,7,15,0,12,10,0,7,4,10,10,5,-1,4,10,-1,14,15,4,10,8,9,11,4,-1,6,8,14,0,12,10,12,13,4,10,8,0,10,0,10,10,1,5,0,10,10,7,12,0,10,12,10,12,0,10,10,0,8,2,10,8,0,4,4,10,6,2,12,2,10,8,1,2,0,10,10,10,11,8,13,3,4,9,0,12,1,2,14,6,15,5,7,
15,27,15,2,4,18,140,116,0,13,0,152,134,2,7,18,140,116,6,-1,36,134,124,6,10,30,134,124,5,11,10,146,124,5,12,10,134,136,6,7,18,134,122,1,2,10,146,124,0,4,38,134,114,9,13,10,136,124,12,14,4,146,130,1,7,40,134,106,8,11,30,134,130,4,6,24,134,116,10,11,20,134,126,10,13,26,134,134,1,10,32,134,114,3,13,24,136,110,5,10,16,134,136,8,-1,30,160,104,11,13,34,134,134,13,-1,34,134,134,3,9,36,134,100,10,14,4,146,130,13,14,4,134,148,6,14,6,146,128,11,8,14,0,7,2,5,4,6,1,12,13,3,9,10,
15,28,15,6,13,36,146,104,2,8,40,140,128,5,13,34,140,140,0,14,6,146,134,10,14,16,140,136,8,9,30,140,144,3,8,10,160,130,0,13,30,140,122,6,14,32,140,128,1,8,6,140,-1,9,10,20,140,150,1,7,10,-1,130,4,9,40,-1,100,2,-1,20,-1,120,2,10,38,140,134,10,11,6,146,134,2,11,0,140,168,0,10,10,140,136,6,11,14,140,132,8,11,32,140,128,5,12,12,166,128,11,13,30,140,118,9,12,38,140,154,3,14,0,140,160,13,14,30,140,116,12,13,38,140,128,0,5,18,140,148,9,11,16,140,154,12,9,3,10,5,2,0,1,14,13,11,6,8,7,4,
16,28,16,4,10,2,12,8,3,5,0,10,10,1,8,2,10,10,10,12,4,10,10,6,9,2,-1,8,3,13,4,12,6,4,8,0,12,10,11,14,2,-1,8,3,4,2,10,10,7,-1,4,10,12,4,15,4,10,10,1,3,0,10,12,9,12,0,14,10,7,13,4,10,8,2,7,4,10,10,1,15,0,14,10,0,3,0,10,10,7,8,2,10,10,8,9,4,10,10,2,4,0,14,10,0,5,0,10,10,1,10,2,10,10,7,11,2,10,12,2,11,2,10,12,15,-1,2,10,14,3,7,2,10,10,7,9,0,14,10,0,4,2,10,10,7,8,0,3,15,2,5,12,1,4,10,14,6,11,9,13,
16,30,16,0,8,0,-1,12,2,4,4,12,12,2,12,4,12,8,6,7,2,12,10,1,2,0,12,12,6,10,4,12,10,7,-1,2,12,12,3,6,0,12,12,10,13,4,12,8,5,15,2,12,12,4,6,2,12,12,12,14,2,12,10,11,-1,4,12,12,0,7,2,12,10,13,-1,2,12,12,9,14,4,12,8,1,7,4,12,10,11,15,0,12,12,5,9,4,12,8,13,14,2,12,10,5,11,0,12,12,11,13,2,12,10,4,15,2,12,10,5,6,4,12,10,14,-1,4,12,12,2,15,4,12,10,2,3,0,12,12,0,10,0,12,12,1,4,0,12,12,3,4,2,12,12,4,10,6,12,8,2,7,9,15,5,0,14,3,1,13,11,
15,30,15,9,12,0,8,6,10,13,4,6,4,6,10,0,10,6,5,13,2,6,4,2,11,0,6,6,8,10,0,6,6,9,11,2,6,6,1,3,0,8,6,9,13,2,6,4,0,3,0,6,6,9,10,0,6,6,3,9,4,6,6,8,11,0,6,6,11,14,0,6,6,8,14,2,6,6,4,5,4,6,6,5,10,0,6,6,0,14,4,6,6,7,14,4,-1,2,3,5,0,6,6,4,11,0,6,6,10,12,2,6,6,1,4,4,6,6,0,1,2,6,6,3,14,0,6,6,4,-1,0,6,6,0,2,0,6,6,10,11,0,6,6,3,-1,0,6,6,5,6,4,6,6,10,1,3,14,12,0,6,11,13,5,4,7,2,9,8,
16,18,16,3,9,12,48,42,4,8,12,-1,36,10,13,2,48,50,2,4,6,48,54,4,6,6,48,54,5,10,4,52,44,0,14,6,48,46,3,12,2,54,46,1,11,4,-1,44,5,11,6,48,46,6,9,0,54,48,6,7,10,-1,38,12,15,6,-1,42,11,14,0,52,48,0,13,6,52,42,2,11,0,60,48,5,9,2,48,58,6,12,4,54,44,12,14,4,5,2,6,1,8,3,9,7,13,15,10,0,11,
15,32,15,9,12,10,32,28,8,13,10,32,30,4,13,4,32,30,6,14,0,34,32,4,6,4,32,32,2,12,4,32,30,5,7,12,32,30,9,11,12,32,28,2,5,8,34,24,4,9,2,38,30,9,10,12,32,28,12,14,12,32,32,1,4,2,34,30,0,4,8,32,26,1,11,8,32,28,8,14,4,32,32,3,13,4,34,28,0,8,8,34,24,10,14,4,32,32,13,14,2,32,32,4,11,2,34,30,3,6,8,32,30,5,8,2,32,32,10,12,0,34,32,6,13,6,32,32,7,-1,6,-1,26,6,10,10,32,32,3,12,4,32,30,1,14,4,32,30,6,11,4,32,30,5,10,6,32,28,7,14,0,32,42,14,1,2,6,11,4,5,0,10,3,9,7,13,8,12,
16,32,16,0,-1,0,10,8,0,8,0,8,8,0,3,2,8,8,7,12,4,8,6,7,14,4,-1,4,1,15,0,8,8,10,11,4,8,6,7,10,0,8,8,1,2,2,8,8,1,10,4,8,6,0,10,2,8,6,9,13,2,8,6,0,1,2,8,8,9,15,0,8,8,9,11,0,10,8,5,15,0,10,8,3,-1,0,10,8,0,4,0,8,8,6,11,0,8,10,6,12,0,10,8,8,9,0,8,8,1,8,0,8,8,7,15,2,8,6,5,11,2,8,8,2,10,4,8,6,3,15,2,8,8,0,2,2,8,8,0,9,0,8,8,10,13,4,8,4,5,13,4,8,6,4,15,0,8,8,2,9,0,10,8,3,14,1,7,9,12,6,11,8,5,10,13,15,4,2,0,
7,10,7,0,1,8,104,104,0,-1,6,-1,98,0,2,16,104,114,2,4,40,-1,64,1,5,34,112,70,1,6,6,104,116,3,6,24,122,80,2,5,36,104,86,2,3,34,104,88,0,5,34,104,78,5,4,6,0,2,1,3,
15,22,15,7,12,6,-1,54,0,3,2,60,58,5,12,6,60,64,3,4,8,60,52,9,10,4,60,58,0,10,4,60,56,2,14,8,-1,52,6,13,8,60,54,1,6,4,66,56,4,9,8,60,52,6,11,2,-1,58,1,12,8,60,62,10,-1,12,60,48,3,9,4,60,60,2,6,0,-1,60,5,13,8,62,52,9,-1,10,60,50,0,5,4,60,58,10,13,10,60,52,3,6,0,60,62,2,8,10,-1,50,1,3,10,60,56,3,11,14,0,5,1,6,9,10,2,7,4,13,8,12,
16,23,16,7,11,20,180,176,2,9,0,180,188,3,13,6,200,174,4,10,18,180,178,3,10,12,180,192,4,11,10,196,170,7,8,20,196,160,12,-1,12,-1,168,0,7,32,180,176,2,5,26,180,-1,8,14,38,180,158,2,3,28,180,172,6,10,4,196,176,6,15,12,180,184,1,9,40,-1,140,0,3,32,180,168,4,9,10,180,178,0,4,14,180,174,4,13,38,180,180,14,15,38,196,142,0,2,16,188,164,13,15,10,180,190,5,-1,34,-1,146,7,10,14,9,15,12,3,2,11,8,13,1,5,4,6,0,
16,23,16,2,6,2,148,154,1,5,12,158,136,11,15,34,148,122,3,5,24,148,-1,0,7,38,-1,110,1,8,2,148,156,2,12,18,156,130,1,9,38,148,144,6,15,30,156,118,11,-1,38,148,174,6,9,14,148,150,3,10,24,-1,124,11,13,4,148,154,7,-1,14,148,198,9,14,2,156,146,1,11,14,148,146,7,9,14,148,198,4,13,20,158,128,1,13,38,148,150,9,12,22,148,134,8,14,4,158,144,11,14,0,156,148,4,5,40,148,118,13,10,8,14,15,1,0,3,11,12,7,5,2,9,4,6,
16,23,16,5,12,4,16,16,2,5,0,16,16,0,4,2,16,14,9,13,0,16,18,9,12,4,16,14,7,12,0,16,16,9,14,0,16,16,2,8,2,-1,14,11,-1,4,16,14,11,13,2,18,14,12,15,4,-1,12,4,5,0,16,16,6,-1,2,16,16,1,10,4,-1,12,1,9,2,16,16,1,14,0,16,18,12,14,2,16,14,0,9,0,16,16,2,3,2,16,14,2,12,2,16,16,6,7,0,18,16,3,7,2,16,14,1,13,2,16,16,2,8,15,7,4,10,6,14,12,9,11,5,13,0,3,1,
15,24,15,6,13,4,14,14,2,5,4,14,10,1,4,2,14,12,0,6,2,14,12,12,14,4,14,10,7,8,0,14,14,9,-1,4,14,14,12,13,2,14,12,0,14,4,14,10,4,6,0,14,14,3,9,4,14,14,8,9,0,14,14,10,11,2,-1,12,4,9,0,14,14,13,-1,0,18,14,1,5,2,14,12,8,13,0,14,14,2,8,4,14,10,7,11,4,14,14,3,4,0,14,14,4,-1,4,14,14,3,7,0,14,14,1,11,2,14,16,5,6,2,14,14,9,6,11,4,14,1,2,10,7,5,8,3,12,13,0,
15,24,15,2,3,4,60,48,6,10,4,54,48,3,-1,8,52,46,10,13,8,-1,44,3,12,2,56,50,4,8,12,52,54,2,10,12,52,48,0,5,8,52,52,1,4,12,-1,40,7,10,6,52,48,3,8,0,54,52,5,9,4,52,48,3,11,0,52,52,3,7,6,52,46,3,5,10,52,52,11,14,6,52,48,0,6,10,52,48,0,10,0,58,52,9,11,4,52,48,4,11,2,52,64,6,8,6,52,48,5,12,6,52,50,14,-1,12,54,40,5,7,6,52,46,2,9,13,6,0,4,14,10,7,11,8,3,12,5,1,
16,24,16,0,4,2,150,134,0,2,4,136,142,0,3,38,-1,98,8,12,10,146,126,2,14,4,136,136,9,10,14,150,122,0,6,2,150,134,5,-1,16,136,170,7,14,0,146,136,2,5,10,140,126,5,15,38,136,130,5,10,28,136,122,5,14,10,136,130,12,15,4,136,142,12,14,30,136,140,4,6,18,136,132,7,11,20,-1,116,7,9,6,136,144,8,13,20,136,-1,0,8,12,136,134,7,15,0,146,136,1,13,40,-1,96,0,9,10,136,144,12,-1,38,136,148,1,4,7,11,10,3,15,2,5,6,8,12,9,14,0,13,
13,25,13,5,12,30,108,94,8,12,16,108,100,9,12,38,108,104,3,10,24,108,98,0,10,26,108,98,2,6,34,108,84,3,5,34,108,96,2,12,28,116,80,0,11,6,124,102,2,4,28,108,88,1,9,20,114,88,1,3,32,108,82,4,6,4,118,104,10,11,10,108,104,5,9,24,114,84,3,12,14,108,106,0,8,26,108,98,8,10,0,108,114,7,10,0,-1,108,3,4,2,114,106,5,11,18,108,96,4,8,8,114,100,3,11,36,108,108,5,10,28,108,86,9,-1,16,-1,92,10,7,5,8,11,0,2,4,6,1,3,12,9,
16,25,16,7,15,36,-1,158,6,10,4,194,208,0,1,34,210,160,0,6,36,194,174,7,13,32,194,224,12,14,8,220,186,2,5,32,-1,162,1,13,40,194,206,10,14,22,194,204,4,-1,4,220,190,6,12,14,194,206,1,9,18,194,192,6,-1,10,220,184,2,6,16,194,178,2,8,4,194,190,3,13,30,-1,164,13,14,10,194,210,2,7,38,194,220,4,13,24,194,196,8,9,24,194,170,2,9,30,194,174,6,9,4,194,190,1,11,28,194,184,10,11,16,212,178,7,8,40,194,216,7,12,6,0,9,11,8,15,3,4,14,1,10,2,13,5,
15,26,15,3,14,28,152,114,2,14,22,142,130,9,13,36,-1,106,9,12,2,142,146,6,8,40,142,136,8,10,22,142,146,2,7,10,142,142,7,9,2,152,140,2,-1,6,162,136,5,9,22,-1,120,14,-1,38,142,124,0,14,30,142,126,0,3,12,142,144,6,12,10,142,142,0,7,32,142,150,11,12,6,148,136,6,10,18,152,124,1,4,20,152,122,2,3,30,142,136,0,12,24,142,150,0,9,30,142,152,3,4,24,142,128,1,10,10,142,142,9,11,10,142,138,0,8,4,168,138,3,6,38,142,138,13,0,7,9,3,1,11,2,5,12,10,8,4,14,6,
15,26,15,4,13,24,146,132,3,12,6,148,140,11,13,18,146,130,4,8,20,146,128,0,9,26,146,130,7,9,0,146,154,9,10,22,146,132,5,10,24,154,122,4,6,2,146,146,12,13,10,148,136,5,7,10,146,144,3,-1,22,-1,124,3,6,0,148,146,10,11,40,146,128,3,13,26,146,130,0,12,14,156,132,7,14,20,-1,126,9,11,4,148,142,0,2,28,146,128,4,9,38,146,146,5,6,22,146,142,9,12,14,146,144,8,9,18,148,128,3,9,34,146,144,2,9,2,156,144,1,4,26,-1,120,9,4,5,2,13,3,14,8,6,12,1,10,7,0,11,
16,27,16,6,14,0,36,40,10,12,4,36,36,4,5,6,42,30,0,1,8,36,34,6,13,6,40,30,8,11,8,36,32,1,5,8,36,34,0,12,2,40,34,2,8,0,40,36,8,9,0,42,36,4,6,12,36,38,0,4,8,36,32,1,7,4,46,32,8,10,8,40,28,8,15,10,36,32,1,3,0,36,42,15,-1,2,42,34,4,11,12,36,34,6,9,6,36,36,3,-1,4,42,32,4,8,12,36,38,4,13,8,36,32,11,14,4,40,32,4,15,12,36,32,2,3,6,36,38,2,14,0,36,40,6,7,12,36,34,12,8,11,6,14,4,5,3,0,9,7,1,15,10,2,13,
15,28,15,6,7,0,12,12,13,14,2,12,12,9,12,0,12,12,9,10,4,-1,8,0,8,4,12,12,1,2,2,12,12,9,14,0,12,12,2,12,2,12,12,0,5,0,12,12,0,11,2,12,10,7,8,0,12,12,2,3,4,12,10,8,11,2,12,10,6,12,4,12,12,2,7,0,12,12,0,9,0,14,12,4,11,2,12,10,8,13,0,12,12,3,12,2,12,10,2,8,2,12,12,4,7,2,12,12,2,11,2,12,10,3,14,2,12,10,1,6,0,12,14,5,7,2,12,12,1,-1,4,-1,8,5,6,0,12,12,4,13,0,12,12,6,8,4,3,9,14,5,0,7,13,12,1,2,11,10,
15,30,15,8,14,0,146,146,5,8,34,146,140,5,14,6,146,140,11,13,30,148,116,8,10,12,146,140,3,11,38,146,110,1,3,10,146,136,10,13,22,146,140,1,8,2,146,144,6,-1,24,-1,122,4,13,14,146,134,6,9,30,146,116,2,13,18,146,134,5,6,26,146,138,5,7,30,146,144,3,5,14,146,132,1,12,2,146,172,0,4,40,146,134,1,14,16,146,144,5,11,36,146,112,2,10,24,152,122,3,12,36,146,138,0,12,0,174,146,4,10,30,146,128,5,9,38,146,108,6,7,10,146,136,6,14,26,146,144,1,5,18,146,140,7,14,8,146,138,4,8,12,148,134,7,11,13,3,0,2,8,5,12,1,6,9,10,14,4,
16,30,16,11,14,6,36,34,3,7,6,36,34,0,3,4,36,36,12,13,6,36,32,13,-1,8,36,38,4,9,8,36,32,7,14,6,38,30,0,2,6,36,34,2,3,6,40,30,1,15,6,36,38,11,15,12,36,32,10,13,0,38,36,3,9,2,36,38,2,5,10,36,30,5,7,6,36,32,3,11,12,36,34,0,11,2,40,34,5,12,8,38,28,4,6,2,38,34,6,14,10,36,28,1,10,10,38,26,9,10,0,40,36,9,14,6,36,34,8,15,2,46,34,15,-1,6,36,40,3,13,4,36,38,1,8,10,36,36,9,11,12,36,36,1,4,6,36,32,0,4,12,36,34,9,3,11,13,1,10,4,5,0,7,15,14,2,8,12,6,
15,30,15,2,8,6,26,22,7,10,12,26,26,5,11,8,26,18,3,12,0,26,26,5,6,4,26,24,2,14,12,26,24,5,8,8,26,20,11,12,6,26,20,2,6,4,26,26,5,10,2,26,24,11,14,12,26,20,1,8,6,28,20,3,14,2,26,24,1,4,6,26,22,0,14,2,26,24,0,6,0,26,26,9,-1,6,28,20,3,13,0,26,28,1,5,12,26,24,7,13,0,28,26,3,7,10,26,26,7,9,6,26,22,0,4,4,28,22,2,12,0,28,26,1,14,8,26,24,6,10,0,26,26,11,13,8,26,20,1,6,8,26,26,2,10,4,26,26,5,-1,4,26,24,1,12,9,4,6,13,0,3,14,5,10,2,7,11,8,
14,30,13,8,9,4,10,8,3,4,4,12,6,1,9,2,12,8,2,9,2,10,10,6,12,0,12,10,1,3,4,10,8,0,6,2,10,10,4,-1,4,10,8,5,12,0,10,12,10,11,0,10,10,6,7,4,10,10,7,9,0,10,14,0,5,0,12,10,1,13,4,10,8,5,8,2,10,8,3,5,4,10,10,7,13,4,10,10,11,-1,0,10,10,11,12,2,10,10,11,13,0,10,12,2,6,4,10,8,3,12,4,10,10,5,11,0,10,10,2,13,2,12,8,6,11,2,10,10,8,-1,2,10,8,5,9,4,10,10,5,13,2,10,10,5,10,0,10,10,0,3,2,10,10,11,9,6,2,13,4,8,3,5,12,0,10,1,
15,30,15,8,12,40,118,128,0,1,28,118,124,4,6,30,118,104,1,13,30,118,128,5,12,28,118,94,6,7,28,118,102,7,-1,32,118,100,2,3,32,118,106,3,-1,32,118,108,12,-1,18,118,116,8,14,8,118,122,1,10,36,118,128,8,10,12,118,126,12,13,2,122,116,1,11,16,-1,102,0,4,24,118,114,0,13,12,118,122,0,7,16,118,112,0,14,0,118,130,3,13,14,118,108,14,-1,12,132,106,4,9,2,134,116,0,9,2,128,116,2,10,26,138,92,1,14,6,118,146,6,8,18,130,100,0,-1,38,118,106,3,5,36,122,82,7,9,4,128,114,3,8,36,118,120,2,6,10,0,7,13,3,8,4,12,1,11,5,9,14,
15,31,15,10,11,2,48,48,2,10,8,48,50,9,13,12,52,36,0,9,8,48,44,4,10,8,48,46,3,7,8,48,46,2,6,12,48,46,3,6,8,48,44,14,-1,8,-1,40,10,12,2,48,52,9,12,10,48,50,1,14,2,48,50,8,11,10,48,50,0,3,12,52,36,1,6,8,48,46,9,10,4,48,50,2,14,10,48,50,7,14,4,48,48,11,14,10,48,50,4,14,4,48,50,7,12,2,52,46,5,11,10,48,40,8,13,10,48,42,1,8,0,52,48,5,10,10,50,38,6,12,2,52,46,2,12,0,58,48,6,7,10,48,44,4,11,2,54,46,1,13,10,48,42,3,12,10,48,46,4,9,11,1,10,14,7,12,13,0,3,5,8,6,2,
16,31,16,4,8,4,10,8,8,-1,2,10,10,9,11,4,10,8,2,8,0,10,10,8,14,0,10,10,7,9,0,12,10,7,13,0,12,10,4,11,4,10,6,8,12,2,10,8,0,5,4,10,8,1,5,2,10,10,2,7,0,10,10,13,15,2,10,10,3,14,4,10,8,0,15,0,10,10,3,5,0,12,10,0,12,2,10,8,1,2,4,12,6,11,15,2,10,8,9,10,4,10,10,12,15,2,10,8,7,10,0,10,10,3,8,4,10,8,14,-1,0,10,12,6,8,0,10,10,6,15,0,10,10,9,15,2,10,10,6,14,2,10,10,2,10,2,10,10,4,14,2,10,8,8,10,0,10,10,10,8,5,12,4,2,14,7,3,11,9,6,1,13,0,15,
16,31,16,2,11,0,8,8,3,4,2,8,6,1,13,0,8,8,6,13,4,8,6,2,5,0,8,8,5,12,2,8,8,11,15,0,8,8,2,8,4,8,6,5,-1,0,8,8,0,14,0,8,8,9,-1,0,8,8,0,1,0,8,8,7,12,4,8,6,9,10,0,8,8,10,12,0,8,10,4,14,4,8,6,7,14,4,8,6,10,15,0,8,8,13,15,0,8,8,10,11,0,8,8,1,15,4,8,8,6,10,2,10,6,14,15,0,8,8,1,2,0,8,8,0,2,2,8,8,7,10,2,8,6,4,7,4,8,4,0,3,0,8,8,11,13,0,8,8,8,12,2,10,6,12,14,2,8,8,0,9,3,2,8,14,12,4,1,7,13,10,11,15,5,6,
15,32,15,0,2,4,118,120,10,-1,8,126,110,2,9,6,124,112,6,8,26,144,92,2,13,26,118,120,1,7,24,118,100,3,9,2,118,126,6,13,38,118,106,1,5,20,118,108,12,14,20,118,122,2,5,38,118,100,4,7,34,124,84,0,11,30,-1,88,9,12,14,118,120,2,10,8,118,118,0,14,16,118,124,1,10,6,118,120,2,14,10,118,120,5,-1,36,118,100,3,8,8,118,136,1,-1,10,118,116,4,9,14,118,110,0,1,22,118,120,13,14,0,130,118,0,12,4,118,120,8,14,22,118,130,10,13,2,118,128,0,4,32,118,112,3,14,16,118,124,3,5,14,128,104,9,13,38,118,122,1,12,0,124,118,14,12,3,8,5,7,0,13,4,11,9,1,6,2,10,
15,32,15,3,12,20,114,110,2,6,24,122,90,1,11,2,114,132,9,13,22,114,106,12,14,10,128,104,1,13,12,128,102,4,14,28,114,110,6,13,32,114,98,3,9,10,122,104,5,12,38,114,118,6,12,30,114,112,8,14,14,114,124,7,11,6,134,108,7,8,18,114,126,5,9,4,114,118,10,-1,26,-1,88,9,14,16,114,112,4,8,18,138,96,1,14,6,114,122,2,5,28,114,102,9,10,38,114,122,0,5,8,128,106,5,6,12,114,110,5,8,36,114,118,7,9,32,114,114,2,7,36,114,98,10,11,2,114,144,0,12,12,114,116,1,8,36,114,128,2,3,26,114,96,1,2,30,114,102,3,10,34,114,112,5,1,12,11,3,2,4,7,10,14,0,9,8,6,13,
16,32,16,3,6,30,120,102,0,15,8,120,126,5,15,34,120,126,11,14,22,120,124,3,8,40,120,92,10,15,8,120,124,12,15,28,120,106,7,9,10,130,110,0,6,14,120,120,13,15,30,120,130,0,-1,40,120,112,11,13,0,142,120,2,9,20,120,122,9,10,8,120,122,10,11,8,120,134,4,5,22,120,112,12,14,40,120,100,2,3,12,120,110,0,4,20,134,100,1,15,28,120,104,6,13,18,120,124,2,5,4,120,118,2,12,16,130,104,8,15,18,132,102,1,6,36,132,84,0,5,32,120,122,3,-1,4,122,116,7,12,34,120,96,5,14,2,140,118,2,10,40,120,114,5,10,4,120,118,10,-1,14,122,106,6,1,5,12,2,4,11,9,14,15,3,7,13,10,0,8,
13,18,13,0,9,6,-1,42,8,10,2,48,48,4,8,8,48,42,9,-1,12,48,50,4,6,0,48,-1,8,12,0,54,48,3,8,10,-1,38,4,10,8,50,40,8,11,8,-1,40,7,-1,0,54,48,2,6,6,-1,42,1,7,12,48,42,8,-1,6,48,48,1,12,6,54,42,7,12,0,54,48,1,9,8,48,54,7,10,6,48,48,5,7,4,-1,44,9,2,10,6,5,3,7,8,0,4,1,11,12,
14,20,14,10,13,2,10,8,1,9,0,10,10,3,5,2,10,8,1,12,0,10,10,1,8,4,10,10,9,12,0,10,10,8,13,0,10,10,1,-1,0,10,10,0,10,0,10,10,0,4,2,10,8,3,4,2,10,8,5,10,2,10,8,6,7,2,-1,8,7,-1,4,10,6,9,11,2,-1,8,2,12,0,-1,10,4,7,0,10,10,0,5,2,10,8,8,12,0,10,10,0,9,4,10,8,8,1,4,7,12,2,5,10,9,6,13,0,11,3,
13,20,13,0,11,2,34,34,4,9,10,38,24,4,7,8,34,34,4,6,6,34,32,7,12,6,-1,28,2,8,4,36,30,0,10,2,34,34,1,11,4,36,30,0,5,4,-1,30,6,10,0,36,34,0,7,2,34,40,1,2,4,34,32,6,8,2,34,34,3,10,2,36,32,9,10,8,34,30,0,3,4,34,32,3,8,10,34,32,10,-1,4,-1,30,0,4,6,34,32,1,10,2,34,34,5,3,0,2,4,1,6,9,8,7,11,12,10,
12,21,12,5,6,6,36,38,8,10,4,-1,32,10,11,10,36,32,2,3,12,36,34,0,11,8,42,28,9,10,8,38,28,3,10,2,46,34,1,10,4,36,34,1,7,10,36,32,6,9,10,36,28,0,7,4,36,38,2,6,0,36,38,1,2,4,38,32,2,5,2,36,38,6,7,0,40,36,4,-1,12,36,28,1,6,10,36,32,5,7,2,36,38,1,-1,4,36,36,4,5,10,40,26,2,10,4,36,36,8,5,6,9,2,1,0,4,7,10,11,3,
16,22,16,3,13,10,54,50,10,13,10,54,48,0,10,4,54,54,6,9,0,54,54,6,8,8,54,52,1,3,6,54,62,2,9,4,54,50,6,10,10,54,52,2,15,10,54,44,6,12,0,54,54,3,4,2,-1,52,11,12,2,54,52,0,11,10,54,50,3,8,4,60,50,3,14,10,-1,44,10,15,8,54,46,7,12,4,-1,50,1,5,10,-1,44,3,9,4,54,56,10,11,4,54,50,1,10,6,54,62,0,13,10,58,44,4,0,2,8,13,10,12,15,11,5,7,14,1,9,6,3,
15,22,15,0,-1,6,52,48,0,1,8,54,44,2,8,8,-1,44,3,12,4,52,56,7,12,8,-1,44,3,11,6,-1,46,10,12,10,52,56,5,10,6,54,46,1,6,12,52,42,2,13,0,-1,52,2,-1,8,54,44,9,10,2,-1,50,0,5,10,52,44,4,6,6,52,52,2,3,0,54,52,12,14,10,52,50,5,6,6,52,48,2,4,0,54,52,2,10,2,52,52,3,10,0,54,52,6,14,6,60,46,0,4,4,52,50,11,8,2,7,9,6,1,3,5,4,13,10,14,12,0,
16,22,15,3,13,30,214,176,6,10,20,206,194,4,8,22,206,194,7,13,0,206,214,4,10,14,206,200,2,14,34,206,180,8,15,14,216,192,0,2,24,206,190,4,5,14,206,200,1,13,30,206,208,4,15,2,206,212,3,11,30,206,184,0,11,28,214,178,5,6,28,206,194,5,8,36,206,184,10,14,36,214,170,1,10,8,206,230,1,12,40,-1,166,6,9,38,214,168,5,7,14,214,192,9,15,30,206,184,2,-1,6,-1,200,9,14,0,1,10,12,2,15,13,11,6,7,8,5,3,
16,23,16,8,12,4,52,44,3,4,10,48,40,2,13,10,48,46,5,14,12,58,36,2,4,10,50,38,0,8,6,48,50,4,11,12,48,44,8,11,0,52,48,1,15,0,48,-1,0,14,12,48,46,0,13,0,48,56,2,3,2,48,48,6,15,12,-1,36,5,7,2,58,46,11,12,8,48,44,7,-1,12,48,46,3,-1,12,48,46,0,3,2,56,46,5,9,0,-1,48,1,8,6,58,42,10,13,0,-1,48,5,-1,12,48,48,1,14,2,48,56,3,15,12,0,9,13,14,1,6,2,5,11,10,8,7,4,
15,23,15,1,3,0,8,8,5,7,0,10,8,2,4,0,8,8,6,-1,2,8,6,1,2,2,8,8,10,11,0,8,8,5,8,4,8,4,0,2,0,-1,8,12,14,4,8,6,2,8,4,8,4,6,7,2,8,8,3,-1,2,8,6,4,13,0,8,10,9,12,2,8,6,4,5,4,8,8,5,9,0,8,8,1,6,0,8,8,9,11,0,8,8,5,6,0,8,8,9,13,2,8,8,13,14,0,10,8,1,12,2,8,6,4,10,0,8,8,0,10,12,13,11,4,8,2,6,5,14,3,7,9,1,
15,23,15,1,10,30,200,212,5,9,38,200,200,5,-1,30,202,170,5,7,26,200,188,10,14,18,200,220,8,12,28,200,174,3,4,38,200,170,1,-1,26,200,176,2,12,8,200,194,1,7,8,214,192,9,10,8,238,192,12,14,0,224,200,0,5,32,200,170,4,13,30,200,172,0,2,28,202,172,6,13,34,202,166,4,14,28,200,196,1,3,28,208,172,6,8,28,202,172,6,11,34,-1,166,1,2,24,200,200,1,4,2,202,198,5,12,32,200,190,5,1,3,11,6,0,12,10,14,8,4,9,2,13,7,
16,23,14,0,13,2,10,8,3,7,0,-1,10,8,9,2,10,10,0,15,4,10,10,15,-1,0,10,14,3,15,0,10,12,4,11,2,10,8,3,13,4,10,8,12,15,4,10,10,1,2,0,10,10,6,9,4,-1,6,1,10,0,10,10,2,10,2,10,10,2,13,2,10,8,4,10,2,10,8,8,15,0,12,10,0,5,2,10,8,0,1,0,10,10,0,11,0,10,10,5,11,2,10,8,12,-1,0,10,14,2,8,0,10,12,2,9,0,10,12,9,8,10,2,5,0,13,6,4,7,15,1,3,11,
15,24,15,0,12,4,20,16,6,10,2,20,20,6,12,4,20,18,0,4,4,20,18,1,6,4,20,20,6,-1,2,20,18,5,8,2,20,18,5,-1,4,20,16,9,14,4,-1,16,5,9,4,20,18,7,11,2,20,18,3,12,2,20,18,1,13,4,20,18,3,11,0,20,20,9,13,2,22,18,8,11,2,20,20,6,8,0,20,20,7,10,0,22,20,0,1,4,20,20,0,2,2,20,20,1,2,2,22,18,4,9,4,22,16,0,7,0,20,20,3,8,2,20,20,6,7,12,8,4,10,3,5,13,9,2,11,1,0,14,
16,24,15,11,13,6,62,56,5,14,8,62,56,7,15,8,62,58,6,8,8,62,54,6,13,8,62,56,2,12,6,62,60,2,6,8,62,54,9,-1,8,62,58,14,-1,6,62,56,10,12,8,-1,54,2,7,4,62,58,0,8,4,62,58,1,2,6,62,58,1,9,8,62,58,3,7,12,62,50,9,15,8,66,54,4,14,8,62,54,11,12,10,62,52,13,-1,2,62,60,3,12,6,62,56,2,4,8,62,58,1,6,12,62,56,1,5,6,64,56,0,4,6,62,56,0,4,8,10,2,9,7,5,1,11,6,12,14,15,3,
9,10,9,3,8,2,42,42,3,4,4,44,38,0,6,12,44,30,0,8,12,42,32,8,-1,0,-1,42,7,8,6,-1,36,1,8,4,-1,38,4,6,4,42,40,5,7,6,-1,36,2,7,10,-1,32,4,5,3,7,8,2,1,6,0,
15,26,15,0,12,8,166,144,5,6,6,176,146,3,14,10,152,154,0,8,30,152,148,5,8,30,152,154,0,13,20,152,146,2,4,32,152,144,4,11,40,166,112,3,12,0,152,164,1,3,4,152,160,10,14,32,164,120,2,12,18,152,150,1,9,32,-1,120,4,6,10,152,156,3,6,10,152,156,10,12,34,152,130,2,8,6,164,146,7,11,36,152,130,0,2,38,152,142,3,8,4,152,160,1,8,4,152,160,3,13,26,152,154,3,-1,14,-1,138,1,2,14,152,150,7,13,14,166,138,0,5,28,152,148,9,3,11,1,2,5,0,14,6,7,8,4,12,13,10,
16,27,14,11,13,18,126,114,7,14,14,146,112,4,6,6,126,126,7,-1,34,126,-1,0,1,28,126,104,11,15,36,126,122,5,12,4,132,122,5,9,6,126,140,7,15,34,126,112,0,3,32,126,128,4,11,20,126,112,9,10,14,146,112,5,15,28,126,126,8,14,32,126,112,5,13,8,132,118,5,8,14,144,112,3,4,2,126,158,10,15,8,126,138,0,13,30,126,124,3,5,36,126,124,2,3,28,-1,98,12,13,18,126,114,5,14,6,126,126,0,11,20,132,106,1,4,22,132,104,6,14,2,132,124,5,6,24,126,128,8,11,9,1,2,12,10,4,13,6,0,7,5,3,
15,27,15,4,7,4,14,14,4,12,4,14,14,0,12,0,14,18,10,14,2,14,16,6,14,4,-1,10,1,5,4,14,14,2,9,4,14,16,2,13,0,18,14,0,11,2,-1,12,2,10,0,18,14,2,14,2,14,16,1,9,0,18,14,2,-1,2,-1,12,5,13,4,14,16,5,7,0,18,14,1,8,4,-1,10,3,4,2,18,12,1,12,4,14,14,12,13,4,14,16,9,13,2,14,16,10,12,4,14,16,1,7,0,18,14,7,9,4,14,14,7,12,0,18,14,5,10,2,14,16,0,14,0,14,18,2,3,0,14,18,10,9,3,0,7,4,6,8,2,11,1,14,5,13,12,
16,27,16,7,10,12,36,32,1,14,0,36,38,1,15,8,36,30,0,15,4,38,32,5,12,4,38,32,1,13,0,40,36,11,13,2,36,38,0,9,12,36,34,5,6,4,36,34,7,-1,10,36,42,6,14,4,38,32,0,2,2,40,34,8,-1,8,36,44,5,10,6,44,30,5,13,12,36,36,7,11,0,40,36,2,13,12,36,32,8,9,4,36,36,5,8,4,40,32,4,11,12,36,28,0,3,2,-1,34,11,15,8,36,32,0,12,2,36,36,2,7,6,36,34,4,9,10,40,26,1,11,12,36,38,8,14,12,36,32,4,15,2,12,13,0,14,3,10,7,6,5,9,11,1,8,
15,29,15,1,9,2,14,12,7,13,0,14,16,9,-1,2,14,12,2,9,4,14,14,8,13,0,16,14,4,-1,4,14,10,2,12,4,14,14,0,10,4,14,12,2,10,0,16,14,5,-1,4,14,10,0,3,0,14,14,7,9,4,14,14,5,14,4,14,10,12,13,0,14,16,2,8,4,14,14,2,5,2,14,12,7,11,4,-1,10,4,6,4,14,12,1,4,4,14,10,10,13,0,14,16,3,7,4,14,12,2,3,4,14,12,1,3,0,14,14,0,2,2,14,12,6,12,0,16,14,2,13,2,14,14,8,-1,4,14,12,0,1,2,14,14,9,14,2,14,12,12,10,3,7,11,2,5,9,1,4,14,6,13,0,8,
11,13,9,1,6,2,32,28,1,3,8,30,24,7,8,8,30,24,8,10,4,-1,26,3,4,4,30,-1,0,3,6,30,-1,3,8,12,32,18,2,8,2,-1,28,6,7,0,32,30,7,-1,8,30,28,2,9,8,30,-1,4,5,8,-1,22,6,-1,2,36,28,4,2,10,1,5,3,7,6,8,
12,13,12,0,11,8,58,50,3,10,4,-1,54,7,10,6,58,52,6,11,10,-1,48,0,10,8,58,50,11,-1,2,58,-1,4,5,8,-1,50,5,6,2,58,-1,1,9,12,58,46,0,1,12,58,52,1,7,8,58,50,2,8,10,-1,48,9,11,10,58,48,11,8,3,2,1,7,4,9,6,0,5,10,
15,31,15,3,11,8,140,130,7,10,2,140,136,7,8,26,138,128,7,9,20,138,138,11,12,32,138,130,9,12,26,138,136,10,14,40,138,104,6,13,0,142,138,3,5,32,138,128,8,14,28,138,112,1,8,4,140,134,13,-1,24,138,118,6,12,6,138,136,5,13,32,138,124,12,13,20,138,136,9,11,14,138,146,11,-1,18,138,122,2,8,12,138,128,4,6,38,138,130,0,9,32,-1,106,8,10,28,138,130,4,10,8,138,132,8,12,18,138,126,5,7,20,138,120,5,14,36,140,102,8,9,10,138,148,2,12,24,140,114,4,-1,32,140,106,3,12,18,138,122,8,13,34,138,132,1,5,14,138,126,6,4,7,3,13,14,11,12,10,2,8,5,0,1,9,
16,32,16,3,14,34,126,104,11,14,30,126,144,1,6,40,126,148,6,14,8,126,130,8,9,8,140,118,1,15,36,126,128,13,-1,10,126,128,10,13,22,126,126,8,15,30,126,108,5,12,22,-1,104,7,13,16,126,132,14,15,16,138,110,2,11,38,126,144,9,10,24,126,116,8,14,30,126,124,10,15,24,126,114,7,10,28,126,110,12,-1,2,126,136,0,7,22,126,108,0,10,2,130,124,2,15,36,126,110,7,8,14,126,124,6,10,8,126,122,1,14,34,126,144,4,12,20,126,118,4,13,20,138,106,6,7,24,130,102,1,11,0,174,126,2,3,34,138,92,2,10,8,126,130,1,2,18,126,146,0,14,24,126,132,6,12,8,9,14,0,1,7,13,15,2,4,11,3,5,10,
16,33,16,6,8,28,166,148,4,9,0,166,176,6,13,30,166,162,1,11,32,176,134,1,2,12,166,166,2,10,38,166,136,0,4,26,166,172,0,7,16,166,172,3,4,30,176,136,1,6,28,166,152,6,7,26,166,150,5,14,10,166,164,4,14,14,166,168,0,12,12,188,154,8,12,38,166,156,6,15,36,166,138,1,8,30,166,162,2,6,14,174,152,13,-1,36,166,-1,0,13,16,166,176,0,14,10,166,178,8,9,4,176,162,10,14,36,174,130,2,14,10,166,168,5,12,32,166,156,5,7,14,174,152,13,15,24,174,142,7,13,12,166,162,2,11,32,166,144,5,9,14,166,162,1,3,30,166,146,0,9,20,166,172,5,11,36,166,142,0,4,2,13,8,7,9,3,14,6,11,12,5,15,1,10,
10,15,10,5,6,4,-1,28,4,9,6,34,26,3,7,10,32,22,3,9,6,32,28,0,8,0,34,32,4,8,12,32,22,0,7,0,32,32,1,6,0,32,32,0,9,8,32,28,7,8,6,32,32,2,6,12,32,20,0,1,4,32,32,1,3,10,32,22,0,2,12,32,20,2,-1,2,32,-1,0,9,1,8,6,2,7,3,4,5,
12,16,12,2,5,10,50,42,5,7,12,50,38,4,8,10,-1,40,0,5,12,50,46,1,2,2,50,58,1,6,6,50,54,8,-1,4,50,48,0,8,4,50,46,3,6,0,60,50,2,3,2,50,58,1,11,2,-1,48,5,8,8,50,42,8,9,10,-1,40,10,-1,8,50,44,0,7,8,50,42,2,10,12,52,38,4,11,1,10,2,5,7,8,9,6,0,3,
13,16,13,2,12,0,58,56,1,12,12,56,50,7,10,6,56,58,4,8,10,58,46,9,10,6,-1,50,4,5,0,56,64,3,11,12,56,46,3,12,12,58,44,0,12,10,-1,46,6,8,10,56,48,5,7,4,64,52,6,11,12,58,44,1,-1,2,64,54,1,4,6,56,52,10,-1,12,56,52,1,2,8,56,50,10,5,7,6,8,12,9,11,4,3,2,1,0,
13,17,13,0,12,10,180,178,3,8,16,196,164,2,11,34,-1,146,0,9,0,180,180,5,12,24,188,156,9,11,34,180,162,0,1,6,180,174,3,6,24,-1,156,1,9,6,180,174,4,7,32,214,148,7,8,40,180,174,10,-1,34,-1,146,8,11,8,180,188,4,8,26,180,188,1,5,28,180,160,3,10,20,180,-1,3,9,10,196,170,12,6,5,1,7,0,11,3,2,8,4,10,9,
11,17,11,9,10,2,12,10,5,6,4,-1,8,1,4,0,12,12,2,4,0,16,12,3,4,0,16,12,1,6,0,12,12,1,-1,0,16,12,4,10,0,12,12,10,-1,4,12,12,3,-1,4,12,12,1,9,2,12,10,4,9,4,12,10,6,10,0,12,12,6,8,0,12,-1,7,8,2,-1,10,0,6,4,-1,8,2,10,4,12,12,9,6,3,0,7,10,1,4,5,8,2,
13,17,13,0,11,0,180,186,3,4,26,-1,154,10,12,40,186,140,3,12,30,180,156,3,8,2,180,-1,7,10,34,180,152,1,3,28,-1,152,2,10,32,180,170,2,11,16,186,164,3,5,14,-1,166,0,7,2,186,178,2,3,0,180,186,3,7,28,180,162,6,10,34,180,-1,7,11,12,180,178,8,9,20,-1,160,6,-1,34,-1,146,3,10,5,4,11,9,6,2,12,8,0,1,7,
13,18,13,4,9,4,118,66,8,12,6,106,64,0,2,10,-1,60,6,10,0,82,70,2,6,6,70,66,2,5,10,70,62,7,10,8,70,76,7,9,24,70,82,5,6,14,72,56,4,7,40,70,78,1,10,18,-1,52,3,-1,18,70,66,6,-1,4,82,66,9,12,6,70,100,8,10,6,70,100,10,11,6,-1,64,10,-1,16,70,66,3,7,8,84,62,9,8,7,5,3,0,6,12,11,4,2,10,1,
15,18,15,4,6,0,-1,18,1,5,2,18,-1,10,13,0,22,18,1,9,0,20,18,1,8,0,18,20,6,7,2,-1,16,6,8,0,20,18,2,11,4,-1,14,2,9,0,-1,18,5,12,2,-1,16,5,14,2,-1,16,6,9,4,18,18,3,9,2,20,16,5,-1,4,-1,14,10,12,0,18,22,3,6,4,18,16,0,2,2,-1,16,12,13,4,18,18,7,5,12,4,10,14,9,3,6,1,11,0,8,2,13,
15,19,15,1,6,0,46,46,2,8,4,46,42,0,2,10,46,36,4,13,12,-1,34,2,12,0,-1,46,5,10,4,-1,42,3,10,6,46,50,0,11,6,46,40,1,8,4,46,42,10,11,10,46,46,9,11,6,46,52,2,3,2,56,44,6,11,4,46,42,3,4,10,46,54,7,9,10,46,48,11,14,10,-1,36,9,-1,4,64,42,6,7,0,58,46,4,-1,12,46,52,10,9,5,7,2,1,12,8,4,3,13,0,6,14,11,
15,19,15,8,10,12,40,42,4,10,4,40,48,4,11,0,42,40,4,13,4,40,50,5,12,0,42,40,1,7,12,-1,28,2,5,0,40,-1,10,12,8,40,44,11,-1,4,40,40,4,12,0,40,42,1,8,8,40,-1,11,14,10,40,34,3,8,2,-1,38,8,13,6,54,34,0,2,0,-1,40,9,10,8,-1,32,5,11,2,40,40,6,8,2,-1,38,14,-1,10,44,30,10,5,8,2,3,6,7,1,12,4,14,0,11,13,9,
10,19,10,3,7,4,16,12,4,9,0,16,16,0,3,10,16,6,4,7,0,16,16,2,-1,10,16,12,6,-1,8,16,18,1,6,0,22,16,1,-1,12,16,18,0,9,12,16,10,2,8,6,16,10,3,8,4,16,12,5,-1,2,16,20,4,8,6,16,16,0,4,6,16,10,1,7,0,16,18,1,8,2,16,16,2,9,6,16,10,4,5,0,22,16,2,6,12,16,10,9,1,0,6,4,7,3,2,8,5,
13,20,13,1,6,4,108,124,0,12,24,128,84,7,11,4,128,104,3,4,20,108,108,2,11,12,108,116,2,9,22,128,86,1,4,8,128,100,5,8,32,128,76,1,7,6,108,122,0,11,18,108,114,2,6,28,108,118,6,7,16,108,118,3,5,4,108,116,6,-1,12,-1,96,4,6,24,108,104,0,7,30,108,110,3,10,6,120,102,9,12,40,108,88,0,8,28,108,100,5,10,14,108,106,3,5,10,12,1,7,0,8,9,2,6,4,11,
15,20,14,1,6,4,14,14,6,12,2,16,12,3,4,0,14,14,4,9,4,14,10,0,13,0,14,14,1,3,0,14,18,2,9,4,14,10,4,8,2,-1,12,4,12,4,14,12,0,3,0,14,14,11,-1,4,14,14,10,11,2,-1,12,9,11,4,14,14,2,13,0,14,14,6,9,4,14,12,2,-1,0,18,14,5,-1,0,-1,14,4,11,4,14,14,7,9,0,-1,14,1,14,4,-1,10,12,13,1,4,8,2,3,5,10,11,6,14,0,7,
16,20,16,8,13,4,208,220,5,11,34,226,174,9,11,26,-1,182,6,8,38,208,186,4,14,38,-1,170,2,13,38,208,188,3,8,36,208,218,3,5,28,208,198,3,15,20,-1,188,2,11,20,226,188,6,7,22,224,186,0,1,18,-1,190,8,10,0,246,208,7,12,26,-1,182,0,4,38,208,-1,1,6,10,208,-1,3,7,10,208,216,9,-1,18,208,-1,7,13,4,224,204,7,10,38,208,208,10,0,14,9,12,11,5,13,6,3,8,1,7,2,15,4,
16,20,14,3,7,2,30,26,9,11,4,28,26,1,13,2,-1,26,5,13,2,28,26,8,11,2,28,28,10,11,2,-1,26,7,14,0,28,28,5,8,2,28,26,14,-1,0,28,28,0,6,4,-1,24,8,14,2,28,26,7,15,2,28,26,9,12,4,-1,24,2,8,4,-1,24,7,13,2,28,26,3,9,0,28,30,0,-1,4,28,24,8,-1,4,28,26,4,14,2,-1,26,0,15,2,28,26,10,7,3,1,12,9,11,6,4,2,5,8,13,14,
14,20,14,4,-1,12,160,168,6,7,32,160,144,9,11,38,160,138,6,11,14,176,146,5,12,2,180,158,3,10,26,-1,134,0,4,26,160,140,1,7,20,162,140,7,11,30,160,158,7,10,30,160,132,0,13,6,166,154,1,12,34,180,126,4,13,14,166,146,8,-1,18,160,162,2,13,16,-1,144,4,11,34,160,146,9,10,12,176,148,1,10,8,162,152,4,5,24,160,156,8,12,8,180,152,12,0,8,4,11,5,7,2,10,3,6,13,1,9,
16,20,14,10,15,20,162,162,3,5,28,162,138,10,14,32,166,130,4,10,22,162,146,7,12,2,162,-1,0,13,34,162,132,12,13,20,162,154,0,2,16,166,146,4,13,10,168,152,8,12,34,-1,128,1,6,16,-1,146,6,15,12,162,170,2,5,28,162,146,11,13,12,182,150,3,9,22,166,140,6,11,6,162,176,9,10,8,162,158,5,13,20,166,142,2,14,24,162,142,0,12,22,162,152,14,0,13,11,4,5,2,12,8,1,6,3,10,9,
14,21,14,8,13,4,10,10,3,4,0,12,10,6,-1,4,10,-1,5,6,0,10,12,3,11,2,10,10,7,9,4,10,8,2,6,0,14,10,9,13,0,12,10,8,9,0,12,10,10,12,2,12,8,5,13,4,10,8,4,9,4,10,8,2,11,4,10,10,0,11,4,12,6,1,10,2,-1,8,6,13,4,10,8,3,6,0,10,12,0,12,4,10,8,7,10,0,12,10,5,9,2,12,8,8,12,2,10,10,6,13,10,11,0,9,7,2,5,8,4,3,1,12,
15,21,15,12,14,0,12,12,3,11,4,12,12,3,8,0,14,12,5,6,2,12,10,2,9,2,12,14,9,13,0,-1,12,7,13,0,-1,12,4,14,0,12,12,1,3,4,12,10,0,12,2,12,10,8,-1,4,-1,8,10,13,2,-1,10,4,6,2,12,10,4,5,0,12,12,5,8,2,12,12,0,1,2,14,10,6,9,4,12,12,2,8,2,16,10,0,5,4,12,10,0,6,0,12,12,11,12,0,16,12,7,4,5,12,14,9,13,1,8,6,2,3,10,11,0,
11,21,11,1,9,0,28,22,5,8,0,22,22,4,5,8,22,14,2,9,10,22,26,3,10,0,28,22,2,7,8,22,24,0,9,12,22,22,1,8,4,22,24,4,7,8,22,14,8,10,0,22,22,2,4,10,22,18,9,10,4,22,24,1,3,2,22,24,0,3,2,22,24,7,10,0,22,22,2,6,6,30,16,0,1,0,22,26,6,8,12,22,18,0,-1,8,28,14,2,8,4,22,24,10,-1,12,22,16,3,9,4,10,0,2,6,1,7,8,5,
13,21,13,9,11,10,36,38,4,5,6,36,32,3,8,4,44,32,9,-1,4,36,34,5,6,10,36,30,1,-1,6,36,32,2,11,0,-1,36,1,4,2,38,34,5,12,8,38,28,3,7,12,36,38,6,8,12,36,32,6,12,2,36,38,3,10,10,36,34,6,10,10,44,26,1,6,12,36,34,6,7,10,36,38,4,7,2,36,46,0,7,10,-1,26,9,12,2,38,34,12,-1,0,38,36,6,11,2,36,46,7,3,11,12,10,6,9,8,0,5,1,4,2,
16,21,16,12,15,0,50,56,5,15,10,50,52,8,12,0,50,56,2,7,4,50,52,1,2,2,56,48,1,15,6,50,50,9,14,6,-1,44,2,3,2,-1,48,0,8,12,-1,38,6,8,6,50,50,1,5,4,50,52,8,11,10,50,46,5,13,8,-1,42,2,11,8,56,42,9,10,6,50,52,7,12,0,56,50,7,9,4,50,54,4,15,4,-1,46,5,6,4,56,46,10,12,10,50,48,5,10,4,58,46,4,2,13,8,1,3,10,7,9,11,14,15,0,5,12,6,
16,21,16,5,10,40,198,174,8,10,8,198,204,3,14,36,198,180,6,8,26,-1,172,9,12,20,206,178,11,13,4,198,208,3,8,6,198,206,9,10,28,198,194,14,15,10,216,188,1,13,4,212,194,2,12,20,198,186,3,15,8,206,190,1,9,18,198,194,5,15,16,206,182,13,15,18,198,196,0,15,34,-1,164,3,4,22,198,184,2,4,30,206,168,5,9,40,198,166,7,15,40,-1,158,10,11,10,212,188,4,9,1,7,5,13,10,8,6,2,3,12,0,14,11,15,
12,22,12,5,10,2,36,34,0,5,6,36,30,1,9,10,36,38,6,7,2,38,34,6,9,4,36,36,1,2,8,36,28,7,10,8,36,36,4,9,4,40,32,4,5,8,36,32,11,-1,0,36,38,2,7,8,36,28,1,-1,6,36,36,3,6,8,36,32,10,-1,6,36,36,1,6,4,36,34,1,8,10,-1,26,9,11,2,38,34,3,4,12,36,28,3,9,4,40,32,1,10,0,36,36,0,7,4,36,32,9,-1,4,36,34,3,11,1,2,4,8,6,7,0,9,10,5,
16,22,16,2,11,2,18,18,7,10,0,20,18,12,13,2,-1,16,0,3,4,18,18,4,14,4,-1,14,2,3,0,20,18,6,14,2,-1,16,3,14,4,18,18,3,7,4,18,18,1,12,0,-1,18,3,-1,0,18,-1,0,11,0,18,22,11,12,4,18,14,2,5,0,-1,18,9,15,2,18,16,3,10,2,18,18,2,7,0,20,18,7,9,2,18,16,0,8,4,-1,14,7,14,0,18,18,12,14,4,18,14,11,15,0,18,18,0,8,13,3,15,2,12,1,4,6,5,14,11,9,10,7,
16,22,16,4,-1,0,166,-1,1,13,4,198,162,0,8,22,166,144,5,14,20,166,146,4,11,14,166,152,3,5,18,166,164,2,5,30,166,136,3,9,14,166,152,5,15,40,166,146,8,15,0,166,166,6,8,34,-1,132,1,8,30,166,174,4,13,40,166,158,1,11,10,166,188,7,14,10,-1,156,0,9,14,166,152,8,10,12,-1,154,8,12,26,-1,140,2,3,32,166,134,4,15,12,166,154,11,14,2,166,164,9,11,12,166,156,0,14,1,7,12,10,3,5,2,8,9,13,15,4,6,11,
16,22,16,4,15,0,16,20,6,14,2,16,16,1,11,2,18,14,3,4,0,20,16,2,-1,4,16,14,9,14,2,18,14,5,7,2,16,16,3,7,4,16,16,9,12,4,16,14,6,7,0,18,16,2,5,4,18,12,7,11,4,16,14,13,15,2,18,14,5,13,2,16,16,12,-1,4,16,14,7,10,2,16,16,8,12,4,18,12,0,10,2,-1,14,6,15,0,16,18,6,-1,4,16,16,1,8,0,16,18,10,11,2,16,16,15,6,4,3,14,0,1,11,5,10,7,8,12,13,9,2,
13,23,13,9,12,0,24,24,5,10,4,24,20,3,7,0,24,24,6,7,2,24,22,10,12,4,24,20,7,12,2,24,24,2,12,2,24,24,3,12,0,24,24,0,3,2,24,22,4,5,4,24,22,6,8,2,24,22,3,10,4,24,20,8,10,4,24,20,1,8,4,-1,20,5,6,2,24,22,2,4,4,26,20,7,-1,4,-1,20,3,8,4,24,24,7,9,0,24,24,0,8,2,24,22,2,7,2,24,24,5,11,4,-1,20,2,3,2,24,24,4,12,6,2,8,9,5,10,11,3,7,0,1,
15,23,15,5,10,18,194,196,6,9,32,194,188,9,10,40,194,200,11,-1,4,196,190,4,5,28,194,168,7,11,0,218,194,5,6,12,196,182,0,1,16,226,178,9,12,32,196,162,5,11,14,194,188,11,13,14,-1,180,7,9,24,194,194,8,10,22,226,172,1,7,40,194,186,0,8,22,194,204,2,11,32,194,164,6,-1,10,194,186,10,-1,40,194,198,3,4,36,-1,158,10,12,38,194,176,4,12,10,194,186,2,9,30,196,164,9,14,28,-1,166,2,9,1,7,13,4,14,5,8,12,11,3,6,0,10,
16,23,16,3,10,28,124,136,14,15,4,130,120,1,13,28,124,102,3,8,8,-1,116,2,5,4,130,120,12,13,14,130,110,3,9,22,124,134,1,9,26,130,98,1,5,12,124,118,7,11,20,130,104,4,10,12,156,112,7,12,24,124,106,11,15,30,124,100,7,15,36,124,120,13,-1,24,124,102,2,6,34,124,96,6,13,14,124,112,0,6,36,126,88,0,-1,0,124,126,3,4,24,124,132,10,15,10,124,146,9,14,22,124,108,0,15,8,124,122,10,3,15,11,14,0,7,5,8,13,4,1,6,12,9,2,
15,23,15,8,11,28,170,162,7,-1,38,174,132,0,8,12,170,158,0,12,14,180,156,6,8,12,170,168,2,11,2,170,168,10,12,32,170,148,0,9,4,200,166,3,8,24,170,146,6,14,12,170,158,0,10,8,170,162,3,-1,28,170,146,9,11,40,170,160,11,13,16,170,154,5,10,8,-1,162,3,6,22,170,148,8,-1,14,170,162,2,4,12,170,158,10,13,12,170,158,4,14,28,170,142,2,10,10,170,168,7,10,34,170,140,1,6,32,-1,138,10,0,6,12,5,3,9,8,13,2,7,1,4,14,11,
15,24,15,3,-1,20,188,170,7,12,16,188,174,4,10,14,188,174,3,7,32,190,156,5,8,2,208,186,0,2,36,-1,152,10,13,18,198,170,1,3,30,188,176,10,14,10,188,178,2,10,24,188,182,8,14,32,188,188,4,8,38,188,174,11,12,22,198,166,2,9,8,188,198,6,14,34,-1,154,8,13,28,188,170,12,14,0,188,188,1,9,18,206,170,14,-1,2,190,186,5,12,22,188,186,8,11,32,188,166,9,14,36,188,184,10,12,30,188,178,4,12,24,188,164,11,0,9,14,7,2,5,10,6,13,12,1,3,4,8,
16,24,16,0,11,20,184,180,0,4,26,184,164,1,14,32,190,152,0,6,38,184,166,6,11,32,184,182,2,3,32,184,166,0,3,14,190,170,1,4,18,184,172,8,9,8,184,192,7,14,0,184,190,3,12,26,184,170,9,11,2,200,182,8,15,38,-1,146,7,13,8,190,176,4,5,28,184,164,5,12,36,192,148,6,14,8,192,176,3,13,16,184,174,3,5,40,184,174,6,12,38,184,154,2,4,12,198,172,7,8,0,184,200,10,14,34,-1,150,9,-1,12,184,-1,7,13,1,0,2,3,15,12,6,11,10,14,4,8,9,5,
16,24,16,3,5,0,16,20,4,13,2,16,16,1,15,2,16,14,0,5,4,16,16,0,14,2,16,14,0,3,2,16,16,2,-1,4,16,18,14,15,2,16,14,5,10,4,16,16,10,11,2,18,14,8,11,4,16,14,8,9,2,-1,14,6,7,4,18,12,0,7,2,16,16,8,14,2,16,16,0,1,2,16,14,2,7,0,16,18,5,12,4,-1,12,3,15,0,18,16,8,-1,2,16,20,0,6,4,16,14,2,13,0,18,16,3,10,0,16,18,0,4,0,18,16,0,15,10,1,8,4,6,5,11,14,2,3,7,9,12,13,
13,25,13,5,9,4,42,42,6,-1,12,-1,30,5,10,6,42,44,9,12,6,42,38,1,8,10,-1,32,0,9,6,44,36,3,4,12,42,40,3,10,4,44,38,9,11,12,42,34,6,12,8,42,42,7,12,2,44,40,5,12,4,42,42,6,7,2,42,48,3,7,4,42,40,0,10,4,42,40,9,10,6,42,40,1,5,4,42,48,7,10,2,42,42,2,4,0,52,42,1,4,4,42,48,4,7,0,42,52,5,11,8,46,34,2,6,10,42,44,2,9,12,42,40,5,7,6,42,44,3,10,12,5,2,11,8,7,0,1,4,6,9,
15,25,15,0,9,4,30,26,8,11,8,32,22,1,9,12,30,26,5,12,6,30,26,3,5,2,32,28,6,8,4,-1,26,8,9,4,30,26,3,11,12,30,20,10,13,0,34,30,3,9,2,30,30,2,13,0,30,-1,0,7,12,30,28,1,10,6,30,28,3,8,4,30,28,3,13,6,30,30,1,13,8,30,28,0,12,0,30,32,0,1,0,30,34,2,4,2,-1,28,8,14,0,-1,30,1,-1,8,-1,22,0,10,6,30,28,5,13,2,30,32,7,12,2,40,28,0,8,0,30,30,8,13,11,3,4,5,2,1,10,9,12,7,6,0,14,
16,25,16,2,6,2,12,12,2,13,2,12,12,0,3,0,12,12,9,12,2,12,10,0,4,2,12,10,0,8,4,12,8,0,10,0,18,12,8,9,2,12,10,7,9,2,12,12,3,8,4,12,8,12,15,4,12,-1,0,6,2,12,10,12,13,2,12,10,4,9,0,12,12,6,14,0,12,12,14,-1,4,12,14,11,15,4,-1,8,1,6,2,12,10,1,9,2,12,10,2,5,0,-1,12,2,14,0,12,14,7,13,0,14,12,10,-1,4,12,14,1,8,4,12,8,13,14,0,12,12,7,0,10,15,9,1,11,2,3,8,13,6,4,14,5,12,
16,25,16,2,6,28,180,182,9,10,38,180,170,1,4,22,180,168,4,14,4,190,176,4,13,34,180,164,3,15,10,-1,170,1,12,6,180,184,1,6,18,180,192,1,11,18,180,200,1,2,36,180,164,2,12,20,180,170,6,8,12,-1,168,0,6,30,180,188,4,-1,26,180,178,14,-1,22,180,182,14,15,4,190,176,1,13,4,198,176,5,9,38,208,142,12,14,28,180,166,2,-1,36,180,168,10,12,16,208,164,5,-1,36,180,172,7,14,40,-1,140,2,15,30,190,150,0,11,22,218,158,14,9,1,8,11,3,13,10,5,4,6,2,0,15,7,12,
16,25,16,6,7,12,46,32,8,13,0,50,44,3,11,10,44,40,6,12,10,44,38,0,14,2,44,46,1,2,0,50,44,3,14,2,48,42,9,-1,12,44,34,4,10,0,50,44,7,12,6,44,42,0,3,4,44,44,0,8,8,46,36,8,9,0,46,44,2,5,4,-1,40,2,11,6,50,38,2,4,10,44,40,11,12,2,44,48,10,13,0,44,50,3,12,12,44,42,0,7,10,44,36,12,15,12,-1,32,6,-1,0,44,46,4,14,12,44,38,11,14,12,44,42,1,9,10,44,40,15,6,0,3,13,8,10,14,7,4,12,5,2,11,1,9,
15,25,15,3,7,36,122,112,0,8,4,128,118,6,-1,40,122,112,8,11,38,122,122,2,10,38,122,118,6,10,24,122,108,11,-1,32,142,90,4,5,36,122,104,6,11,24,122,118,5,12,4,122,128,11,14,28,122,120,8,-1,32,122,110,6,13,32,122,96,0,13,18,128,104,9,10,28,122,122,5,9,4,122,146,6,8,4,128,118,3,13,12,122,120,2,9,4,156,118,3,12,0,132,122,5,10,4,132,118,12,13,12,122,120,7,14,28,148,94,1,8,12,-1,110,0,4,16,140,106,8,12,3,1,9,10,14,6,13,2,11,7,0,4,5,
15,26,15,10,11,0,20,18,2,13,2,18,18,9,10,0,18,18,1,6,0,18,18,6,14,2,20,16,0,4,4,18,14,4,8,4,18,14,8,-1,4,18,14,1,11,2,18,18,6,8,2,18,16,3,4,2,18,16,10,13,0,20,18,6,10,0,18,18,6,13,2,18,18,2,10,0,18,20,12,13,4,18,18,12,14,4,18,16,7,12,4,-1,14,1,3,0,18,18,3,8,2,18,16,0,12,2,18,16,13,14,4,18,16,9,12,0,18,18,9,-1,2,18,16,10,-1,2,18,16,2,5,4,-1,14,11,5,4,2,7,1,13,6,8,12,3,0,9,10,14,
16,26,16,2,6,6,-1,44,5,15,10,50,42,0,9,8,50,44,4,12,4,50,46,7,-1,12,50,-1,0,2,6,50,46,1,14,4,50,50,3,15,8,54,42,1,8,0,54,50,8,13,0,50,50,13,14,0,50,50,1,3,12,50,42,0,7,4,52,46,2,9,2,50,48,10,15,4,50,48,4,15,0,50,52,5,10,12,52,38,9,15,12,50,46,7,12,6,50,44,4,13,12,50,50,1,15,4,50,50,7,10,6,50,46,9,14,4,50,46,4,8,0,50,50,2,7,0,50,50,4,11,12,-1,38,4,3,8,12,2,1,0,9,5,15,7,6,11,10,14,13,
15,26,15,10,14,10,34,36,10,12,10,34,30,7,11,0,40,34,4,14,6,-1,28,8,10,6,34,32,7,8,12,34,32,6,14,2,38,32,3,5,10,34,36,1,13,2,44,32,2,10,8,34,36,8,11,8,34,32,5,14,2,34,36,10,13,10,34,34,6,9,10,34,36,1,2,0,34,40,0,6,10,34,28,0,10,6,38,28,5,8,6,38,28,3,7,0,34,40,9,-1,4,-1,30,3,12,8,40,26,1,7,4,34,36,2,14,0,40,34,7,14,2,34,38,2,9,4,34,42,2,3,8,34,36,8,1,6,11,14,12,10,4,13,5,9,7,2,3,0,
15,26,15,4,13,22,142,152,10,12,40,142,108,0,9,14,142,130,1,8,14,142,170,3,12,14,142,140,1,14,4,166,138,9,10,20,142,124,2,4,18,174,124,8,-1,24,-1,118,12,13,40,142,146,0,12,2,148,140,1,10,32,142,114,0,8,28,142,156,3,10,32,144,110,1,2,12,142,140,0,3,0,142,144,4,11,24,142,-1,1,6,22,142,126,7,11,38,-1,104,0,13,30,142,144,0,14,28,142,138,5,13,16,-1,126,2,12,0,142,148,6,9,8,148,134,2,6,28,142,120,1,3,4,142,142,2,1,11,0,3,5,6,14,8,12,9,13,10,4,7,
16,26,16,1,9,2,14,10,12,14,4,12,12,6,12,0,12,14,1,12,0,14,12,1,5,0,12,14,1,6,2,12,12,1,15,2,12,12,0,3,2,12,12,0,13,2,14,10,5,7,0,12,-1,3,9,2,12,12,8,11,4,12,10,5,9,4,12,10,2,12,4,12,12,5,15,0,14,12,6,14,0,14,12,1,13,4,12,12,11,13,0,14,12,3,14,2,12,12,12,15,4,12,12,4,7,4,-1,8,3,8,2,14,10,2,15,2,12,12,3,13,2,12,12,2,13,0,14,12,1,10,2,-1,10,13,8,3,10,4,11,9,12,7,14,15,1,2,0,6,5,
16,26,16,2,4,0,32,26,4,7,0,28,26,3,10,2,26,26,0,5,0,26,26,6,11,10,-1,16,4,15,0,32,26,5,11,0,26,26,4,11,6,26,24,3,13,10,26,24,12,13,4,-1,22,3,7,0,28,26,4,5,4,26,24,8,10,6,26,20,5,13,0,26,34,11,14,0,-1,26,2,15,6,26,26,2,5,12,26,24,0,8,2,26,24,10,-1,4,26,30,2,-1,4,26,30,3,5,4,26,24,1,7,6,-1,20,5,9,0,26,26,10,11,4,26,22,8,9,2,26,24,5,8,4,26,24,15,5,13,11,4,6,3,9,10,2,8,12,0,1,14,7,
16,26,16,11,12,8,136,120,3,10,28,128,114,3,-1,24,128,154,1,5,20,132,108,7,-1,26,128,152,7,10,24,128,114,10,11,28,128,130,15,-1,38,128,154,5,14,20,128,112,0,8,40,128,128,4,14,14,128,118,3,8,4,128,126,4,12,24,128,112,11,13,22,128,114,8,13,10,136,118,0,2,2,128,128,7,9,22,-1,106,4,8,22,128,108,12,14,34,128,126,2,3,6,130,122,7,15,4,128,134,1,8,10,128,122,10,15,18,138,110,0,4,20,130,108,4,7,24,128,118,6,14,24,-1,104,13,3,7,14,6,8,11,5,2,12,15,9,10,0,1,4,
14,26,14,3,13,6,-1,44,6,9,12,50,38,7,-1,10,50,46,5,12,6,50,46,7,13,2,50,48,2,13,12,50,50,9,12,4,50,48,0,10,4,50,46,7,11,12,50,38,2,4,4,50,46,10,12,2,52,48,1,-1,2,50,48,9,13,10,50,48,8,9,10,50,40,1,13,6,50,46,5,13,0,52,50,2,-1,4,50,48,2,10,10,50,48,6,-1,12,50,38,2,8,8,50,42,0,13,2,50,48,0,7,6,50,48,2,5,2,50,50,1,10,2,50,48,0,4,6,50,44,2,11,10,50,40,0,6,1,2,13,3,12,9,10,8,11,4,5,7,
15,26,15,3,13,4,10,8,2,6,0,-1,10,11,12,0,10,-1,10,13,4,12,6,8,13,0,10,12,0,3,2,12,8,12,14,0,12,10,1,8,2,10,10,6,8,2,10,10,10,14,4,10,8,9,14,0,10,12,7,12,2,12,8,4,7,4,10,8,6,14,2,10,10,11,-1,2,-1,8,0,14,2,10,10,5,12,0,14,10,4,6,4,10,10,0,6,0,10,12,1,9,0,12,10,4,9,2,10,10,4,8,0,12,10,6,10,4,10,8,3,5,4,10,10,1,3,2,10,10,6,12,4,10,10,12,11,14,1,3,13,10,2,5,6,4,8,0,9,7,
15,26,15,5,13,2,24,24,5,11,2,24,-1,0,5,6,24,24,3,12,2,26,22,9,13,6,24,20,5,14,4,24,26,7,11,0,-1,24,3,9,6,24,20,8,-1,8,24,22,2,9,6,26,18,9,10,2,24,24,3,8,4,24,22,1,4,4,24,22,10,12,2,24,24,0,13,0,30,24,1,12,4,24,22,6,10,6,28,18,6,12,10,24,18,14,-1,2,30,22,4,12,8,24,18,10,14,10,24,22,0,-1,10,24,26,2,8,4,24,22,1,5,0,26,24,4,8,8,26,16,4,-1,8,24,24,6,0,13,14,9,10,4,7,3,5,1,11,2,12,8,
16,26,16,8,14,0,10,12,6,11,0,12,10,3,9,0,10,10,9,-1,2,10,10,10,15,4,10,8,5,6,4,10,8,1,9,0,10,12,0,15,4,10,10,5,13,4,10,8,11,12,4,-1,6,4,6,0,10,14,11,15,0,10,10,13,-1,2,10,10,4,7,2,-1,8,8,-1,0,10,12,3,10,4,10,8,9,13,0,10,12,3,4,4,10,10,4,8,4,10,10,5,14,2,12,8,3,8,0,10,10,2,8,0,10,10,9,11,0,10,10,1,10,2,12,8,0,13,0,14,10,2,15,0,10,10,15,3,5,12,10,1,13,8,9,11,4,7,14,6,0,2,
15,27,15,0,9,6,48,48,0,3,6,48,42,12,14,2,48,46,10,11,6,48,42,7,14,0,48,48,13,14,6,48,46,1,13,4,48,44,11,12,6,48,46,10,13,8,48,40,10,-1,0,48,48,9,12,4,48,48,5,-1,0,54,48,12,-1,8,48,40,1,10,8,48,44,6,8,8,48,-1,7,8,6,48,42,1,3,6,48,46,2,6,12,-1,36,0,8,8,48,40,8,11,6,48,42,3,9,6,48,46,3,5,12,48,42,1,8,10,48,44,0,1,6,48,44,4,9,12,-1,36,3,11,4,48,44,1,14,2,48,46,8,4,10,3,7,5,12,1,9,0,14,11,13,6,2,
15,27,15,4,7,2,4,4,3,13,4,4,4,2,9,2,6,2,3,14,0,6,4,5,6,0,6,4,1,-1,2,4,2,1,12,2,4,4,1,13,0,8,4,11,-1,2,4,2,5,13,4,4,4,12,14,2,4,4,0,4,2,4,4,5,12,0,6,4,1,11,0,4,4,0,2,4,4,4,8,11,0,4,6,3,10,0,8,4,3,8,0,6,4,3,11,2,4,4,0,9,2,4,4,2,5,0,6,4,0,3,0,6,4,0,6,2,4,4,5,7,4,4,4,5,10,4,4,4,2,4,0,6,4,3,7,0,6,4,3,14,9,5,1,12,13,0,11,4,10,7,8,6,2,
15,27,15,5,12,4,116,122,4,12,28,116,114,8,-1,0,116,130,2,13,40,116,98,3,8,18,-1,98,0,14,36,-1,80,4,13,18,126,98,7,11,32,116,118,0,6,4,116,122,2,5,6,116,132,4,-1,34,116,108,0,13,20,116,106,1,12,8,116,118,0,8,34,116,116,5,10,38,116,104,0,9,38,116,116,11,12,0,150,116,9,-1,22,130,94,1,6,2,126,114,10,-1,34,116,102,4,10,6,136,110,4,5,6,126,110,2,7,8,150,108,2,10,34,116,110,9,13,32,116,98,6,8,18,116,112,2,8,38,116,108,4,10,13,12,3,8,6,14,0,1,7,9,2,5,11,
16,27,16,12,15,6,32,26,12,14,6,32,30,7,10,2,32,30,3,12,4,32,30,6,-1,8,32,36,1,15,12,32,20,14,15,8,32,24,10,12,4,32,30,4,11,2,32,30,9,11,0,36,32,1,12,6,32,26,4,7,2,32,30,11,13,10,32,30,5,11,4,34,28,6,14,12,32,36,3,13,4,32,28,11,14,2,32,30,1,-1,2,32,30,1,5,12,32,22,10,13,4,32,28,2,9,4,32,32,8,12,2,-1,30,3,-1,6,32,26,0,6,4,-1,28,6,12,8,32,36,1,6,12,32,34,2,7,0,36,32,1,14,9,10,4,13,7,6,12,3,0,5,2,15,8,11,
15,28,15,12,-1,0,-1,24,0,3,0,24,26,8,9,6,24,24,5,12,2,-1,22,1,10,10,24,24,4,14,6,24,28,7,12,4,24,22,3,13,2,26,22,6,13,10,24,20,6,11,10,24,26,0,8,0,26,24,11,13,6,24,26,2,7,2,26,22,2,10,10,24,26,3,12,12,24,20,2,12,8,24,24,12,14,8,24,26,8,13,4,24,22,6,10,8,24,26,0,2,4,24,22,3,14,8,24,26,12,13,2,26,22,10,11,0,32,24,1,14,6,34,18,8,11,12,24,28,6,9,8,30,16,3,10,4,24,28,4,13,2,34,22,10,1,11,12,14,7,8,9,3,6,4,0,13,2,5,
15,28,15,13,-1,6,128,110,4,5,32,116,116,3,11,18,116,100,10,12,22,116,104,7,11,10,116,116,0,1,24,116,122,3,10,18,116,108,2,11,10,118,106,9,11,24,116,96,5,9,10,120,106,0,5,0,116,120,2,9,18,116,106,0,2,0,116,120,1,7,36,116,122,8,13,36,-1,80,11,14,22,116,108,10,-1,38,116,100,1,6,12,132,104,4,-1,30,116,98,2,14,2,116,116,4,7,0,128,116,10,13,10,128,106,3,7,16,116,110,1,11,20,116,112,3,14,8,118,108,3,6,24,116,108,1,3,26,116,120,0,12,24,126,92,0,10,12,5,8,1,6,11,7,9,13,14,2,4,3,
15,28,15,3,8,12,216,200,8,11,4,216,208,2,8,30,212,190,2,10,24,212,192,2,14,38,212,182,6,14,16,212,204,6,11,26,212,208,5,6,38,212,180,9,14,20,212,196,8,10,2,212,214,10,14,10,216,202,0,3,18,212,198,6,8,8,212,212,2,7,36,216,176,4,9,34,212,196,11,13,16,212,210,0,-1,40,-1,172,0,12,16,218,196,9,13,32,212,206,6,13,2,212,224,8,9,34,212,204,7,11,18,212,198,6,12,24,212,194,1,6,32,-1,180,5,8,38,218,174,0,9,14,216,198,4,13,10,230,202,4,10,38,212,206,1,7,9,6,12,11,0,2,10,3,8,13,5,4,14,
16,28,16,1,3,12,36,28,14,15,10,36,40,2,14,2,44,34,0,11,0,36,40,7,8,0,46,36,5,12,8,36,30,2,4,6,36,38,5,14,10,36,38,1,5,2,38,34,10,11,6,36,34,10,14,2,36,42,0,12,10,36,32,4,15,0,40,36,4,11,6,36,36,5,10,10,36,36,8,12,2,38,34,10,12,6,36,34,1,9,4,36,36,3,15,12,36,28,3,-1,2,36,38,0,3,12,40,24,9,11,0,40,36,10,-1,8,36,32,6,10,6,-1,30,8,13,12,38,24,1,4,0,36,38,4,13,10,36,28,1,7,12,36,34,9,15,8,13,14,5,7,0,4,10,3,1,12,6,11,2,
16,28,15,12,14,0,16,16,7,15,2,16,20,10,12,0,16,16,8,11,4,16,16,6,15,4,16,16,10,11,4,16,16,10,15,0,16,16,2,8,4,16,16,3,6,0,16,16,1,12,4,16,14,11,14,0,16,16,6,8,0,20,16,5,13,4,-1,12,4,6,0,16,16,2,10,4,16,16,5,15,0,16,-1,4,15,0,16,16,3,7,4,16,18,12,-1,2,-1,14,3,11,0,16,16,6,10,4,16,16,1,4,2,18,14,0,2,4,-1,12,3,10,4,16,16,3,9,4,-1,12,1,6,4,16,14,2,12,0,16,20,3,14,2,16,16,14,2,12,13,9,0,1,8,10,3,11,4,5,15,6,
15,28,15,7,10,0,10,12,6,12,0,10,10,8,13,0,10,10,4,8,0,10,10,4,13,0,10,10,6,11,4,10,6,0,12,4,10,8,12,14,0,10,10,2,5,0,10,10,10,14,0,12,10,6,9,0,10,10,5,6,0,10,10,1,14,4,10,10,1,8,0,10,10,8,9,2,10,10,3,13,0,10,10,4,6,4,10,10,2,12,0,10,10,8,14,0,10,10,3,11,4,10,6,5,-1,4,-1,6,0,7,2,12,8,0,5,4,10,8,9,14,2,10,10,1,9,0,10,10,12,13,2,10,10,1,12,2,10,10,3,8,2,10,10,5,14,3,6,0,7,9,10,2,8,11,1,12,4,13,
13,28,13,6,7,32,90,78,8,12,10,106,80,5,8,20,90,96,0,9,2,90,98,9,12,40,90,90,0,-1,10,110,80,4,8,28,90,78,0,1,10,90,90,1,3,26,90,88,5,10,32,106,58,9,11,10,90,96,9,10,28,90,78,3,7,38,90,82,3,8,36,90,84,1,11,26,90,94,5,12,20,90,86,0,7,36,90,100,3,4,6,106,84,7,8,2,90,104,2,11,18,90,88,0,8,22,90,98,1,2,36,90,76,2,7,20,106,70,7,9,8,90,98,1,9,2,100,88,6,11,10,106,80,3,6,4,90,102,5,-1,32,90,78,2,11,1,7,6,8,9,10,3,5,12,4,0,
15,29,15,8,10,0,6,6,5,14,4,6,6,6,7,4,6,2,9,11,2,-1,4,2,14,0,10,6,0,10,0,6,6,5,12,0,6,6,4,7,4,6,6,2,13,0,6,6,2,11,0,6,6,1,6,4,6,2,0,8,0,6,6,1,8,4,6,6,1,7,0,6,6,0,13,0,6,6,1,10,0,6,6,10,12,0,6,6,5,11,0,6,6,10,-1,0,6,6,1,5,0,6,6,4,13,0,10,6,3,5,0,-1,6,5,8,2,6,6,8,-1,0,6,6,1,13,0,6,6,2,7,0,6,6,5,13,4,6,6,0,5,2,6,6,5,10,2,6,6,14,3,7,10,9,13,6,5,11,2,8,12,1,4,0,
14,30,13,2,7,28,80,66,0,9,14,80,66,7,10,40,80,74,4,5,34,80,76,10,11,36,80,60,1,11,10,80,88,2,5,16,80,64,6,7,2,94,78,2,13,30,80,50,3,13,34,80,64,3,6,2,80,84,1,7,30,80,68,8,9,30,80,70,4,11,40,80,60,4,10,4,80,76,9,13,20,80,60,0,8,34,80,56,5,12,4,80,76,8,-1,4,90,76,2,-1,4,80,86,4,9,2,80,78,6,12,26,80,80,3,10,6,80,74,3,12,2,80,78,0,6,30,80,64,9,11,18,96,62,4,12,16,80,80,0,3,18,80,62,6,10,10,80,76,0,13,34,80,46,11,6,2,9,7,13,12,0,4,5,8,3,10,
16,30,14,9,14,2,14,12,4,13,4,14,10,7,8,0,14,14,1,6,4,14,12,10,11,4,14,10,12,15,4,14,12,5,13,2,14,12,9,15,2,14,12,6,13,2,14,12,1,12,4,14,10,4,5,2,14,12,0,1,2,14,12,3,11,2,14,12,4,7,2,14,12,6,7,0,14,14,9,10,2,14,12,2,3,0,14,14,5,10,0,14,14,7,13,4,14,12,5,7,0,14,14,8,12,2,14,12,8,15,0,14,14,2,8,2,14,12,9,11,4,14,12,0,13,2,14,12,15,-1,0,14,-1,2,10,4,14,12,6,10,4,14,14,2,5,2,14,12,3,14,2,14,12,14,11,7,13,8,5,9,12,10,1,4,2,0,3,
16,30,16,12,15,4,10,6,1,6,2,10,8,7,9,2,10,8,1,15,2,10,8,4,-1,0,10,10,7,15,2,10,10,5,7,4,10,6,3,13,2,10,8,7,14,4,10,10,12,14,4,10,6,15,-1,4,10,6,6,10,0,10,10,6,13,2,10,10,2,15,2,10,10,9,13,2,10,8,4,8,0,-1,10,2,10,0,12,10,9,14,2,10,8,0,12,2,10,8,13,15,0,10,10,3,12,4,10,8,2,13,2,10,10,1,11,4,10,8,1,14,2,10,8,3,9,0,10,10,0,3,0,10,10,4,5,0,10,10,7,10,0,10,10,0,11,0,12,10,2,14,2,10,10,0,15,3,14,11,8,7,13,6,9,12,1,10,4,2,5,
16,31,16,0,8,0,58,60,5,13,6,58,56,1,4,8,-1,50,6,13,6,58,54,8,15,2,58,58,0,12,10,-1,48,3,6,10,58,58,7,14,6,58,54,10,13,6,60,52,0,11,6,58,54,1,9,12,58,48,15,-1,6,58,66,0,13,8,58,58,10,15,4,58,56,2,7,10,58,54,1,7,2,60,56,0,5,12,58,56,2,3,6,64,52,5,11,10,58,52,9,15,10,60,48,6,14,8,60,50,3,14,8,58,56,3,9,12,58,52,1,3,8,58,60,3,13,10,58,58,5,8,2,62,56,6,15,10,58,56,5,15,12,58,56,1,15,10,58,58,1,11,6,60,52,0,-1,8,58,64,2,9,3,14,10,1,8,11,0,4,13,6,15,5,7,12,
16,31,16,4,5,0,12,12,1,8,4,12,12,10,14,4,12,10,1,14,2,12,10,8,10,4,12,12,6,8,4,12,12,1,4,2,12,10,0,13,4,12,8,13,14,4,12,10,8,13,0,12,12,6,13,0,14,12,1,15,0,16,12,8,15,4,12,12,11,-1,0,12,12,2,11,4,12,8,1,3,4,12,12,3,10,0,16,12,7,9,0,12,12,5,7,2,12,10,6,9,2,12,12,4,12,0,-1,12,1,2,2,12,12,7,15,4,12,12,1,10,4,12,12,2,8,2,12,12,2,-1,4,12,8,6,11,4,12,10,8,14,2,12,10,5,10,2,12,12,3,7,4,12,12,0,9,4,12,8,13,4,2,0,3,11,1,7,14,15,9,8,10,6,12,5,
15,31,15,4,12,2,8,6,0,4,2,8,6,5,14,0,8,8,2,3,0,10,8,4,10,4,8,6,11,12,0,8,8,0,11,0,8,8,8,12,0,8,8,1,5,4,8,6,5,9,0,8,8,5,13,4,8,8,12,-1,2,8,8,0,12,4,8,8,2,10,0,8,8,4,7,2,8,6,6,-1,4,10,4,0,9,2,8,8,8,13,2,8,8,5,6,4,8,6,2,13,0,8,8,3,6,4,8,6,3,11,4,8,8,2,14,0,8,8,7,11,0,8,8,5,10,0,8,8,0,14,0,8,8,1,13,2,8,6,1,8,2,8,6,1,12,2,8,6,4,9,2,8,6,0,3,2,8,8,10,11,7,13,12,8,14,0,2,4,9,5,6,3,1,
15,32,15,3,8,0,-1,10,10,-1,2,12,8,9,10,0,10,10,1,10,4,10,10,0,1,0,10,10,4,12,0,10,10,4,6,0,10,10,0,12,0,10,10,1,12,2,10,10,2,4,2,10,10,10,12,0,10,10,6,10,0,10,10,2,12,0,12,10,1,5,0,10,10,1,8,0,10,10,2,7,2,10,10,5,10,4,10,10,9,11,4,10,6,7,13,4,10,10,7,8,0,12,10,5,-1,4,10,8,7,9,2,10,10,1,7,2,10,10,13,14,4,12,6,6,9,0,10,10,5,11,4,10,6,1,13,2,10,10,4,14,4,10,8,0,10,0,10,10,8,11,4,10,6,8,13,4,10,10,6,12,2,10,10,14,4,11,3,6,8,12,13,5,10,1,7,2,9,0,
16,32,16,6,9,4,6,4,9,-1,2,6,6,8,15,2,6,4,0,8,2,6,4,5,12,4,6,4,4,7,4,6,6,2,4,0,10,6,6,8,4,6,2,3,4,0,6,10,0,11,2,6,6,9,11,4,6,6,1,5,2,6,4,9,10,0,6,6,11,15,0,6,6,3,11,0,6,6,10,12,0,6,6,13,14,0,6,10,0,1,0,6,6,5,6,4,6,2,3,13,0,6,6,2,9,4,6,6,3,5,4,6,4,7,14,0,10,6,10,15,2,6,6,0,10,0,6,6,10,-1,2,6,6,3,10,2,6,6,12,-1,0,6,8,0,2,4,6,6,0,15,2,6,6,9,12,0,6,6,12,13,0,6,6,0,5,15,6,11,8,4,10,9,3,13,7,2,12,14,1,
16,32,16,0,3,2,40,40,3,11,10,40,34,3,-1,2,40,-1,2,10,0,44,40,5,7,8,40,34,6,15,12,40,42,1,10,12,40,34,9,15,6,40,36,1,12,2,42,38,8,14,12,40,38,0,13,6,42,34,8,10,4,40,40,5,15,4,40,38,6,14,10,50,30,8,12,6,40,38,7,11,10,40,32,10,13,8,40,40,12,15,12,40,38,2,6,8,40,42,8,11,6,42,34,7,13,6,40,38,2,13,4,40,40,4,12,12,40,32,7,8,4,40,38,8,15,2,40,40,5,12,0,42,40,3,15,2,42,38,5,10,10,40,36,4,7,6,42,34,4,13,8,40,34,1,13,12,40,30,9,12,8,42,32,15,10,3,6,11,8,13,2,5,0,12,9,14,4,7,1,
7,9,7,2,6,32,118,74,0,5,28,106,90,4,5,36,106,102,3,4,36,-1,70,1,2,18,106,100,0,-1,16,138,90,4,-1,28,106,110,1,5,22,118,84,0,6,20,106,98,2,1,0,3,6,5,4,
7,10,7,0,-1,2,22,16,3,5,6,18,16,1,3,4,22,14,2,4,8,-1,10,1,6,10,18,16,5,-1,6,18,16,5,6,4,22,14,2,3,6,18,-1,0,1,2,18,20,0,6,4,18,18,0,1,6,4,2,5,3,
11,11,10,1,2,4,18,-1,3,7,0,-1,18,0,4,4,-1,14,2,7,2,-1,16,4,6,4,-1,14,7,10,0,-1,18,3,4,2,18,-1,7,9,2,18,-1,1,8,4,-1,14,10,-1,0,18,-1,4,5,4,-1,14,7,8,2,10,6,5,4,3,1,0,
8,11,8,4,5,32,92,80,0,4,26,92,106,3,5,32,-1,60,6,7,8,112,84,0,1,26,-1,66,2,5,28,92,98,2,7,40,92,92,5,7,14,92,98,2,6,8,92,104,0,5,26,92,106,2,4,26,112,66,0,5,7,1,3,6,2,4,
7,12,7,0,1,32,116,100,3,5,32,124,84,2,4,40,116,116,1,5,30,116,102,0,3,34,116,90,3,4,30,116,106,1,2,8,116,116,1,6,32,116,92,4,5,22,116,102,4,6,32,124,84,1,-1,28,-1,88,0,2,24,124,92,6,2,0,1,5,4,3,
11,13,11,6,8,8,54,52,1,9,8,54,56,1,2,2,-1,52,8,10,10,60,44,3,9,10,64,44,1,3,12,54,52,3,5,10,-1,44,4,10,10,54,50,0,-1,10,-1,44,9,-1,10,54,-1,6,7,6,-1,48,3,6,4,54,56,3,4,6,60,48,6,2,7,0,10,1,4,8,5,9,3,
10,13,10,3,8,10,90,96,6,9,16,-1,74,5,8,26,90,92,1,7,14,90,104,3,9,38,90,86,1,5,32,90,74,0,9,14,-1,76,1,8,18,106,72,5,9,4,90,120,3,4,36,90,82,4,7,14,118,76,3,5,8,106,82,2,9,20,-1,70,6,5,1,9,7,2,0,3,8,4,
10,14,10,4,8,2,48,48,7,9,10,50,38,2,4,2,50,46,8,-1,4,-1,44,2,7,8,48,42,1,9,10,48,40,3,8,2,48,48,2,8,8,48,48,0,6,12,-1,36,5,-1,12,-1,36,0,8,10,48,-1,1,3,8,50,40,8,9,10,48,46,2,3,6,48,48,2,0,5,3,6,7,9,8,1,4,
13,14,13,0,-1,6,-1,164,2,11,38,170,136,0,5,14,174,156,0,9,16,-1,154,0,3,14,-1,156,6,8,10,170,-1,0,11,26,174,144,2,6,6,174,164,4,7,32,170,-1,4,8,28,-1,142,1,10,34,-1,136,1,9,34,170,-1,5,6,12,170,162,7,12,26,-1,144,10,2,4,9,3,1,8,12,11,0,7,6,5,
13,15,13,4,6,4,-1,18,1,4,0,22,26,1,8,4,22,22,3,7,4,22,24,0,5,2,22,-1,3,4,2,22,24,2,7,0,-1,22,3,5,4,26,18,8,10,4,-1,18,1,9,4,22,-1,1,7,0,22,28,9,12,4,-1,18,1,11,2,-1,20,5,8,2,22,24,0,-1,4,-1,18,0,3,8,9,4,10,1,7,5,2,12,11,6,
11,16,11,3,8,6,52,50,4,9,4,52,56,6,8,12,52,50,5,7,10,-1,42,1,9,10,52,52,3,7,4,52,52,2,4,0,52,56,0,9,10,52,50,1,6,10,52,46,0,3,12,56,40,1,4,4,56,48,2,8,0,56,52,7,-1,12,-1,40,0,8,10,52,46,9,10,10,-1,42,6,7,4,56,48,8,4,5,3,6,7,2,10,9,1,0,
13,16,13,1,8,2,-1,40,9,10,4,-1,38,0,12,10,42,50,4,10,6,42,38,0,6,6,44,36,0,3,12,42,36,7,8,8,42,52,3,4,4,48,38,6,10,4,42,40,7,12,6,60,36,2,4,0,-1,42,8,11,10,-1,32,8,-1,8,-1,34,0,5,0,60,42,0,4,2,44,40,5,8,6,42,54,4,0,3,9,2,10,8,1,5,7,12,6,11,
13,17,13,5,7,0,36,28,11,12,2,28,30,7,-1,10,-1,18,5,6,0,28,32,0,1,6,28,26,9,12,4,32,24,0,3,6,28,-1,1,11,2,32,26,6,8,12,28,28,7,8,8,28,28,5,9,4,28,28,1,10,8,28,26,5,8,0,36,28,0,6,2,32,26,5,10,2,34,26,2,3,6,-1,22,4,7,2,-1,26,10,7,5,6,9,3,4,0,2,12,1,8,11,
11,17,11,1,9,8,58,46,3,9,8,54,50,3,5,10,54,52,8,-1,10,54,48,3,7,8,54,54,1,4,4,60,50,0,6,8,54,50,1,3,4,54,54,5,7,10,62,44,2,3,12,-1,42,6,10,2,58,52,4,6,10,54,50,3,6,10,54,54,0,-1,12,58,42,3,10,6,54,52,1,8,6,58,48,7,10,10,54,52,4,10,8,0,7,9,5,1,2,6,3,
13,17,12,2,-1,10,24,16,2,4,0,24,26,4,11,4,24,20,1,6,0,24,24,1,10,0,26,24,4,6,4,24,20,2,3,2,24,-1,0,10,0,30,24,9,11,12,24,12,7,-1,0,24,26,5,9,12,24,-1,7,10,4,26,20,0,4,10,24,20,1,9,12,24,12,2,12,2,-1,22,5,8,2,-1,22,0,7,10,24,20,8,7,4,11,0,12,10,1,2,5,9,6,
16,17,16,6,12,34,-1,134,1,14,14,188,154,8,12,34,168,156,0,10,40,-1,128,12,14,16,168,172,1,13,4,-1,164,1,12,18,168,170,11,15,30,168,176,3,6,4,206,164,9,14,4,-1,164,8,14,16,190,152,1,5,34,-1,134,0,14,8,168,-1,6,15,6,206,162,4,7,12,-1,156,2,11,0,-1,168,3,11,18,168,188,10,0,11,12,4,8,9,1,7,2,6,5,13,3,14,15,
15,18,15,0,2,6,-1,42,8,10,2,-1,46,8,14,0,48,-1,5,7,6,-1,42,1,-1,10,-1,38,2,13,0,48,64,9,14,10,64,38,5,9,12,48,52,3,13,2,-1,46,4,11,4,48,50,1,14,8,48,56,1,13,10,48,54,4,12,4,54,44,5,6,2,54,46,5,11,6,54,42,2,12,6,48,48,1,6,8,48,56,2,6,8,48,46,6,11,7,9,0,8,3,12,5,1,10,14,13,4,2,
14,18,13,10,12,2,12,8,6,-1,0,10,10,4,8,0,10,10,0,11,0,10,12,10,13,2,10,10,7,8,0,10,-1,9,12,0,14,10,1,11,0,-1,10,8,12,2,12,8,4,5,0,-1,10,9,13,4,10,10,4,11,4,10,8,4,-1,0,10,10,4,6,2,10,10,3,7,4,-1,6,6,8,0,10,10,1,2,2,-1,8,0,13,0,12,10,6,10,13,3,5,7,12,0,2,9,8,4,11,
16,18,16,3,13,10,-1,38,0,1,4,54,44,2,7,2,56,46,2,6,2,48,54,4,13,2,56,46,6,11,2,48,52,1,6,8,48,46,3,9,6,48,-1,0,11,0,54,48,8,14,6,-1,42,4,7,4,48,52,2,-1,4,48,-1,5,6,10,-1,38,0,13,4,48,52,9,10,6,-1,42,0,15,4,-1,44,12,13,4,-1,44,4,8,0,48,-1,6,13,10,5,0,8,7,11,12,1,4,3,14,15,9,2,
11,18,11,1,4,20,128,88,5,7,30,108,104,3,8,16,108,112,5,8,38,108,110,4,-1,6,108,112,3,10,20,128,88,7,8,18,128,90,2,6,38,108,108,6,9,12,146,96,2,5,24,108,126,1,9,36,108,92,7,9,14,108,114,4,5,20,108,98,5,-1,16,118,92,4,8,24,108,110,5,10,22,108,106,0,9,34,108,112,0,2,22,146,86,4,5,7,1,2,9,8,3,6,0,10,
12,18,12,2,11,4,16,14,4,7,2,16,16,3,4,4,16,16,2,10,0,16,18,0,10,2,18,14,1,5,4,-1,12,0,5,4,16,-1,7,9,4,16,12,3,7,0,18,16,4,10,4,16,16,0,7,4,16,14,2,9,4,16,12,4,11,4,18,12,2,7,0,16,16,2,3,2,16,16,7,8,2,-1,14,6,7,0,-1,16,3,-1,0,16,-1,7,6,2,11,4,10,1,0,3,9,5,8,
16,19,16,5,11,4,-1,12,11,-1,2,16,-1,0,13,4,16,14,0,10,0,-1,16,0,15,2,16,14,3,8,4,16,16,6,9,0,-1,16,1,2,4,16,12,0,11,4,16,12,4,8,0,16,20,13,15,4,16,12,7,9,0,16,-1,2,13,2,16,14,7,11,2,-1,14,8,11,4,16,12,1,8,0,16,16,3,4,0,20,16,12,13,0,-1,16,1,14,0,-1,16,4,1,12,15,0,14,13,9,2,6,11,3,5,8,7,10,
14,19,13,0,5,14,126,116,10,13,26,-1,100,3,11,16,126,114,9,12,16,126,114,3,6,18,126,124,2,8,6,146,120,2,12,34,126,112,8,12,8,130,118,4,5,10,126,120,7,8,4,130,122,9,11,20,130,106,1,5,6,126,-1,6,7,6,126,124,5,10,14,126,-1,5,-1,36,-1,90,3,12,38,126,118,3,9,30,126,122,0,3,20,130,106,4,6,6,130,120,12,8,10,5,3,6,9,4,11,13,7,0,2,
16,19,16,1,13,38,202,184,6,7,28,-1,174,4,10,2,210,200,1,10,18,202,192,3,15,32,224,170,6,11,18,202,192,12,13,36,202,166,1,11,20,210,182,4,14,20,224,182,4,12,26,202,196,5,9,0,-1,202,5,8,8,202,-1,2,6,40,-1,162,0,8,18,202,184,10,15,40,202,184,8,12,28,202,174,4,6,6,210,196,3,14,36,202,188,0,13,26,202,176,3,11,13,14,4,10,6,9,8,1,12,2,7,5,0,15,
14,19,14,2,8,14,138,126,5,8,18,138,144,8,13,36,140,102,7,10,30,138,110,9,11,8,138,132,0,2,8,140,130,6,-1,28,138,134,3,-1,28,138,112,13,-1,24,138,116,0,12,6,138,134,1,6,16,-1,122,4,9,6,138,134,0,8,18,138,134,4,7,22,140,116,5,9,10,162,128,3,12,26,140,112,10,11,20,140,118,0,6,32,138,142,6,7,16,138,146,3,11,4,13,5,6,9,7,12,2,1,10,0,8,
11,20,11,1,3,4,8,4,0,10,0,8,12,0,1,4,8,8,2,-1,2,8,6,4,7,4,8,8,10,-1,2,8,6,4,10,2,8,8,3,7,4,8,4,0,5,4,8,6,5,9,2,10,6,0,6,0,10,8,7,10,0,8,8,1,4,0,8,8,4,9,4,8,8,8,9,4,8,8,7,8,0,8,8,2,8,0,8,8,0,9,2,8,8,6,9,0,8,10,2,4,0,8,8,10,0,2,8,5,7,9,3,1,4,6,
16,20,16,10,15,32,228,210,3,12,30,228,234,7,11,30,-1,198,1,4,26,228,218,4,8,20,228,224,7,12,16,228,226,4,-1,8,228,-1,10,12,30,242,198,10,13,28,-1,200,0,14,38,-1,190,3,5,10,228,234,2,7,30,228,212,2,15,34,242,194,5,8,38,244,190,4,6,8,264,220,9,10,20,-1,208,3,4,30,228,220,6,15,20,228,244,0,4,18,228,-1,1,3,2,244,226,0,3,15,1,12,5,13,4,8,7,2,9,10,6,11,14,
12,20,12,8,9,34,168,150,2,3,40,-1,128,7,-1,8,168,172,1,9,38,168,160,10,-1,14,168,166,9,11,18,170,150,5,11,26,168,144,0,2,28,168,184,6,7,26,180,142,5,8,26,170,142,0,9,6,168,174,9,10,16,170,152,2,9,10,168,190,7,9,38,168,174,5,9,26,168,162,2,5,28,168,172,1,6,40,168,140,4,9,28,-1,140,8,10,36,168,134,0,1,14,180,154,0,3,2,7,8,9,4,1,11,10,5,6,
13,20,13,1,9,0,14,12,0,1,0,12,12,6,12,2,12,18,7,9,4,12,12,3,10,4,12,12,8,12,2,12,14,2,4,4,12,8,5,6,0,20,12,0,8,0,12,12,3,11,2,12,14,3,-1,4,-1,8,5,7,4,12,16,2,3,2,12,14,7,8,0,14,12,0,7,2,12,12,0,9,2,12,12,11,12,2,16,10,1,2,0,12,12,4,8,4,12,8,0,10,2,16,10,9,11,6,7,1,2,5,10,8,4,0,12,3,
15,20,15,0,11,0,62,60,1,5,6,-1,54,1,3,4,-1,56,4,6,12,-1,48,0,1,0,60,64,0,7,6,60,54,7,8,10,60,50,4,14,4,62,56,2,4,6,-1,54,0,-1,0,-1,60,1,4,6,60,58,11,14,2,60,60,4,7,12,60,52,1,14,10,60,60,4,13,12,-1,48,8,10,8,60,52,0,10,4,60,56,0,4,4,60,58,4,12,2,-1,58,1,9,0,-1,60,2,7,1,12,14,5,6,4,0,3,8,9,10,11,13,
15,20,15,3,10,6,216,196,0,9,36,206,166,13,-1,4,-1,198,7,14,36,202,178,7,8,8,202,206,5,8,24,210,178,0,3,16,202,190,4,8,28,202,200,2,8,12,202,198,6,11,28,-1,174,4,14,30,214,172,3,5,20,202,190,9,11,24,202,182,2,11,0,210,202,1,3,34,202,172,2,4,2,202,212,9,10,40,202,176,1,11,34,206,168,1,13,38,202,-1,7,12,40,-1,162,12,0,9,4,14,7,3,1,2,8,13,6,10,11,5,
13,20,13,10,12,32,174,176,3,12,12,200,162,3,5,20,174,170,0,3,34,174,156,8,12,4,200,170,8,9,16,174,184,4,11,18,174,172,9,10,12,174,188,6,9,40,-1,134,4,10,20,174,180,0,1,28,190,146,1,2,36,174,184,2,10,8,210,166,1,11,2,190,172,2,3,32,174,178,7,12,20,204,154,7,9,38,174,166,1,-1,34,-1,140,4,5,26,190,148,3,11,32,174,178,8,4,9,11,12,2,5,10,6,7,3,0,1,
15,20,15,0,1,32,180,168,2,10,8,180,234,1,11,0,180,242,12,14,16,204,164,1,6,16,200,164,12,13,28,180,176,10,11,40,180,202,2,6,40,180,210,4,8,16,180,184,6,8,20,180,180,3,14,30,180,174,5,8,22,180,182,4,5,40,180,186,10,-1,36,-1,144,0,2,26,180,216,9,11,10,-1,170,0,4,32,200,148,2,7,30,-1,150,3,5,6,204,174,8,13,34,204,146,12,5,8,13,9,6,0,1,11,14,7,2,4,3,10,
14,21,14,1,3,0,24,22,8,9,2,22,20,1,13,2,22,22,6,11,4,22,24,5,9,4,22,18,6,-1,2,-1,20,4,5,4,-1,18,5,7,2,22,20,3,11,2,22,22,8,12,0,-1,22,7,8,2,22,20,8,13,0,22,22,2,13,2,22,20,7,11,2,22,20,1,6,2,22,26,5,11,2,22,20,5,13,2,22,20,3,5,2,22,22,0,-1,4,-1,18,5,10,4,-1,18,2,11,4,22,18,12,2,9,6,5,8,7,3,1,0,13,4,10,11,
14,21,14,2,-1,8,-1,184,12,13,28,192,188,4,13,2,210,190,8,9,10,192,184,3,7,20,198,172,0,5,28,192,166,7,13,36,192,186,5,12,34,194,158,0,9,2,192,192,6,10,28,192,170,4,6,26,194,166,6,7,40,192,176,9,13,26,192,184,6,12,24,192,170,3,12,26,192,172,0,11,32,-1,160,10,13,32,192,188,4,8,2,194,190,1,9,38,-1,154,7,10,6,198,186,7,-1,24,-1,168,11,12,4,6,1,3,5,2,0,7,10,9,8,13,
15,21,13,2,5,4,20,18,8,10,2,20,20,2,6,2,22,18,0,11,2,20,20,13,-1,2,20,-1,4,8,4,22,16,0,12,4,20,16,0,-1,4,20,16,1,6,0,20,22,1,11,4,20,20,0,14,2,-1,18,6,9,2,-1,18,6,7,0,22,20,7,10,0,22,20,1,3,2,-1,18,4,5,4,20,18,5,-1,4,20,16,5,12,4,20,16,1,5,2,20,20,0,10,0,22,20,7,11,0,22,20,1,4,11,3,9,14,6,7,8,5,0,2,12,
13,21,13,6,10,6,58,54,3,-1,10,58,50,3,12,8,68,50,1,11,10,58,58,9,10,10,58,54,10,-1,8,60,50,9,11,2,58,58,3,11,6,58,54,6,7,10,60,48,8,9,12,58,52,1,10,8,58,62,2,9,0,60,58,2,4,12,58,48,4,7,10,58,50,0,1,12,-1,46,2,3,4,58,56,1,12,12,58,56,10,11,8,58,52,5,8,8,-1,50,8,11,8,60,50,4,8,4,60,54,1,2,7,12,11,8,6,10,3,5,9,0,4,
14,21,14,6,10,12,54,42,1,6,6,54,62,2,12,12,54,52,4,10,12,54,48,4,7,6,58,48,3,9,8,56,46,7,8,8,54,52,3,5,12,54,44,5,10,6,54,48,2,13,6,64,48,8,11,12,-1,42,12,13,4,54,60,5,9,2,54,52,0,5,6,58,48,5,7,10,54,48,1,12,4,-1,50,5,8,4,54,56,1,9,12,54,56,10,-1,8,54,-1,0,4,6,54,52,6,9,4,54,50,10,8,4,0,9,3,7,2,6,1,13,5,11,12,
15,21,15,0,11,6,-1,44,5,13,12,50,-1,3,10,8,50,46,4,8,12,50,50,6,9,4,50,48,2,13,4,-1,46,0,-1,2,50,-1,3,8,2,62,48,10,11,2,50,54,3,5,4,52,46,3,14,10,52,40,9,10,0,54,50,4,5,10,50,48,4,11,4,50,54,7,-1,12,-1,38,6,14,12,50,50,6,12,0,52,50,1,4,12,-1,38,5,9,10,50,42,11,14,8,50,48,12,14,2,50,50,14,9,12,6,13,7,5,4,8,0,2,1,3,11,10,
15,21,15,7,10,4,-1,40,2,9,8,-1,36,1,6,6,44,44,0,12,2,52,42,5,8,10,-1,34,6,11,2,-1,42,2,8,6,44,54,7,13,4,44,48,7,14,2,-1,42,12,13,10,44,40,0,1,8,44,44,8,-1,12,44,48,2,7,8,44,44,3,12,8,44,40,7,-1,2,60,42,4,6,8,48,36,3,6,0,48,44,4,12,4,44,44,1,12,6,44,46,1,13,6,50,38,1,2,2,44,50,9,14,11,1,0,8,6,12,3,13,2,7,10,4,5,
14,21,14,6,12,32,126,110,1,6,14,126,128,0,10,20,-1,106,5,8,2,126,136,1,2,22,142,104,4,5,12,138,114,10,13,4,126,148,7,9,18,-1,108,1,10,12,126,140,12,-1,10,126,-1,8,12,16,138,110,11,13,30,-1,96,3,5,6,164,120,2,9,26,126,152,2,12,40,126,102,4,13,18,126,120,12,13,20,126,118,9,13,32,126,146,2,8,40,126,118,5,6,2,142,124,3,13,38,126,126,4,11,3,9,0,10,8,1,2,6,12,7,5,13,
15,21,15,2,3,8,188,154,0,13,32,162,166,0,5,18,174,144,8,12,8,188,154,0,8,16,162,162,1,4,22,-1,140,10,13,26,-1,136,7,12,10,162,-1,11,-1,24,-1,138,5,11,40,162,172,2,12,40,162,148,12,13,12,162,186,3,6,24,-1,138,8,14,4,162,170,7,9,30,-1,132,11,14,20,162,192,0,14,8,162,166,0,11,28,162,184,0,4,38,162,-1,3,14,2,188,160,5,8,18,162,156,11,12,3,10,6,1,13,9,5,4,7,2,8,0,14,
16,21,15,11,14,4,32,28,7,12,10,32,26,6,8,10,32,24,5,6,6,34,26,0,3,4,36,28,3,15,12,32,28,9,10,0,44,32,11,12,0,32,32,0,1,0,32,36,5,12,4,32,30,0,15,0,32,40,8,9,2,32,42,1,2,0,32,32,4,12,6,-1,26,2,10,12,32,32,1,14,0,32,32,2,8,2,32,30,13,14,6,-1,26,7,-1,4,-1,28,8,12,6,32,26,3,7,2,32,34,1,12,13,11,5,7,6,10,9,3,0,2,4,14,8,
15,22,15,3,11,2,172,146,1,4,26,148,152,12,14,30,158,118,5,7,6,158,142,7,12,30,148,128,5,6,36,148,154,11,14,0,148,158,2,5,24,148,134,0,2,40,158,108,0,1,26,148,132,1,8,12,158,136,9,10,30,-1,118,4,8,16,148,142,2,10,6,148,-1,6,11,12,148,178,4,11,2,148,156,5,11,40,148,142,1,13,32,148,150,3,5,32,148,140,6,-1,26,-1,122,7,13,34,148,148,4,13,2,182,146,9,12,3,0,11,10,13,8,6,1,14,2,5,4,7,
15,22,15,6,11,0,-1,26,8,12,4,28,22,7,-1,4,26,24,1,12,12,26,16,0,4,0,-1,26,6,13,0,28,26,3,9,6,26,22,8,13,0,26,28,2,9,10,26,22,4,5,0,30,26,9,13,8,26,28,2,5,6,28,20,4,10,0,30,26,7,8,2,26,30,10,12,8,26,22,9,-1,4,28,22,3,6,8,26,24,5,6,0,28,26,2,14,8,26,20,1,14,8,28,18,3,7,4,28,22,5,10,6,26,26,11,12,9,5,6,10,7,14,13,4,3,2,8,1,0,
14,22,12,1,10,2,12,8,4,-1,2,10,-1,7,9,2,10,10,4,6,2,10,10,6,13,0,10,12,1,2,0,12,10,2,4,2,10,10,2,3,2,10,10,1,7,4,10,10,3,11,0,12,10,9,12,4,12,6,7,10,2,10,10,0,6,0,-1,10,5,9,2,10,10,5,7,0,12,10,5,13,2,10,10,2,7,2,10,10,6,7,4,10,10,4,8,2,-1,8,4,13,0,12,10,4,11,2,12,8,3,12,4,10,8,7,8,9,12,4,6,3,10,2,0,13,5,
15,22,15,4,11,26,152,112,6,10,2,162,136,2,8,2,-1,136,2,4,12,138,144,1,4,22,138,132,4,10,32,138,130,0,13,4,138,148,2,7,12,152,126,4,7,20,138,132,3,-1,2,-1,136,5,13,14,138,180,3,6,12,152,126,3,11,32,138,120,0,10,32,138,138,13,14,18,152,120,5,9,40,-1,98,6,12,12,-1,126,4,5,40,138,154,6,13,8,138,144,1,3,12,154,126,0,2,0,152,138,2,14,28,138,124,11,3,1,4,12,9,14,10,13,2,5,0,7,6,8,
13,22,13,2,-1,0,16,14,2,10,4,14,12,1,11,0,14,14,0,7,4,14,12,9,12,4,14,12,2,6,2,14,12,4,11,4,14,12,7,11,0,14,14,1,5,4,14,10,7,9,4,14,10,4,12,0,14,14,4,9,2,14,12,5,12,2,14,12,0,2,0,16,14,8,12,0,14,14,3,8,4,14,10,4,6,2,14,12,4,10,2,16,12,2,8,4,14,14,6,11,4,14,10,6,-1,4,14,12,2,3,4,14,10,9,4,8,7,6,12,2,0,11,3,10,1,5,
14,22,14,0,11,8,48,42,10,11,4,50,44,8,13,12,48,36,13,-1,0,48,48,1,10,6,48,44,0,4,6,48,44,0,7,8,50,40,4,6,6,-1,42,3,8,12,48,46,9,11,10,48,42,7,11,6,48,48,5,9,0,52,48,2,7,8,48,42,3,11,2,58,46,1,7,8,48,48,2,5,0,50,48,8,12,8,-1,40,8,11,0,58,48,2,9,4,48,48,1,5,8,50,40,8,-1,12,48,36,4,11,2,48,48,5,6,3,12,1,8,9,0,11,4,10,7,13,2,
14,22,11,3,4,4,50,48,6,9,8,50,44,11,-1,6,-1,44,2,12,6,50,50,3,12,4,52,46,5,7,6,50,44,9,11,12,50,46,6,13,8,52,42,2,9,8,50,42,1,6,12,-1,38,5,9,8,50,42,4,12,6,50,50,2,10,4,50,46,7,10,2,50,48,4,6,4,50,50,4,8,0,52,50,9,10,12,50,40,2,8,0,50,52,0,11,6,-1,44,3,11,6,50,52,5,12,2,50,50,10,13,12,50,40,2,7,9,5,0,13,1,4,12,3,8,
15,23,15,11,-1,4,-1,12,1,5,2,16,14,12,14,0,-1,16,8,13,4,16,16,6,14,4,16,22,3,8,0,16,16,0,5,4,16,16,7,9,2,16,16,10,11,4,-1,12,0,3,2,16,18,6,11,4,-1,12,1,7,0,18,16,6,7,4,16,20,9,13,0,16,16,0,14,0,20,16,3,4,0,16,16,1,4,0,16,16,2,14,2,-1,14,4,5,2,16,14,1,14,2,16,18,1,13,0,16,16,8,9,0,16,16,3,6,4,16,20,2,1,9,0,7,11,5,12,4,14,13,10,6,8,3,
15,23,14,1,11,4,14,10,6,8,2,14,16,8,-1,0,14,18,0,9,0,14,14,7,12,2,14,12,3,8,2,-1,12,4,11,0,16,14,12,13,0,14,14,1,9,2,14,12,6,-1,2,14,16,2,13,0,14,14,1,7,4,14,10,5,6,4,-1,10,12,14,0,14,14,2,9,0,14,14,4,14,4,14,12,8,9,0,14,16,0,10,4,14,10,0,6,2,14,16,10,14,4,14,10,1,13,2,14,12,0,8,2,14,14,10,11,2,14,12,5,9,14,7,3,4,2,1,11,12,8,13,6,10,
16,23,16,2,6,10,34,24,2,12,4,34,30,0,1,8,34,26,6,9,12,-1,22,5,15,0,-1,34,12,14,8,34,34,0,15,2,34,32,13,14,0,40,34,10,12,4,34,32,8,10,2,34,32,11,15,10,34,28,7,8,2,38,32,10,13,2,34,32,6,11,0,38,34,4,8,4,34,30,4,-1,2,34,32,1,6,0,34,34,15,-1,6,34,28,12,15,12,34,22,7,10,8,34,30,11,14,12,34,28,3,4,0,-1,34,12,13,0,34,34,13,0,5,15,1,3,4,7,9,14,2,11,12,6,10,8,
16,23,13,8,9,4,14,12,2,15,2,14,14,4,14,0,14,16,5,12,4,14,12,3,5,4,16,10,4,10,2,14,14,4,11,0,16,14,11,12,2,14,14,13,15,4,14,18,0,14,0,-1,14,7,9,2,-1,12,9,15,0,14,16,8,11,4,14,12,6,15,0,14,-1,1,3,2,14,14,1,10,2,16,12,8,14,2,16,12,2,12,2,16,12,4,9,0,14,16,15,-1,2,-1,12,3,13,4,14,18,3,10,4,14,14,10,13,4,14,18,8,4,11,1,7,10,0,2,12,15,3,5,9,
15,23,15,5,12,30,-1,108,0,7,12,-1,126,2,4,34,138,144,1,6,38,138,120,2,-1,30,-1,108,1,11,10,140,128,4,12,22,138,136,4,10,0,154,138,1,8,12,150,126,0,9,2,140,136,2,14,18,-1,120,1,9,8,138,138,2,11,10,138,144,2,10,6,138,148,9,11,12,138,128,0,3,6,138,134,3,12,12,138,146,8,11,34,138,116,0,6,18,158,120,1,3,4,140,134,4,11,0,138,154,2,13,2,-1,136,3,8,28,138,122,3,6,2,11,10,8,14,12,5,9,7,13,0,4,1,
16,23,16,1,13,20,-1,144,2,12,8,186,156,12,14,14,164,172,4,11,24,178,140,0,14,26,164,176,3,14,14,-1,150,0,7,6,164,192,7,12,40,164,174,8,9,2,164,176,5,12,36,164,142,6,7,38,-1,126,4,7,24,164,174,5,9,40,178,124,9,11,30,164,158,0,10,18,-1,146,2,-1,0,164,-1,1,11,12,164,166,0,15,14,164,164,4,8,18,164,162,0,4,4,164,174,1,12,12,164,166,8,15,2,178,162,2,14,16,164,170,7,12,5,0,11,4,10,13,9,8,1,3,15,14,2,6,
16,23,16,1,8,40,164,152,3,4,38,164,194,2,12,26,178,138,1,13,36,192,128,9,15,14,176,150,6,7,28,164,164,11,14,2,212,162,5,8,38,-1,126,6,14,38,164,174,4,12,38,164,166,11,15,14,164,162,2,8,4,164,188,3,10,30,-1,134,0,13,30,164,162,7,11,12,164,188,6,9,24,164,176,4,7,2,204,162,3,12,28,164,204,9,11,12,164,164,7,12,4,164,174,1,4,38,164,168,0,6,16,192,148,2,7,36,164,142,5,2,9,12,14,15,13,6,3,7,0,8,1,4,10,11,
16,24,16,0,4,0,10,10,8,13,0,-1,10,4,6,4,10,10,4,11,2,10,10,0,3,0,10,-1,6,7,0,10,10,9,11,2,10,10,6,10,2,-1,8,9,14,2,10,8,12,15,2,14,8,8,11,0,10,12,14,15,0,10,14,4,14,4,10,8,6,11,0,10,10,2,9,4,10,6,7,11,0,10,10,1,4,0,-1,10,6,8,4,10,10,3,5,0,-1,10,12,-1,4,10,10,0,14,2,10,8,8,-1,4,10,10,0,8,0,10,12,2,4,4,10,6,12,5,15,7,11,8,6,9,1,4,3,10,2,0,13,14,
16,24,16,3,10,0,14,12,5,11,0,14,12,4,14,2,12,12,1,15,4,12,10,3,5,2,12,12,0,8,0,12,12,4,6,2,12,12,1,3,4,12,8,11,12,2,12,12,0,12,0,12,12,1,12,4,12,8,14,15,2,12,12,4,13,4,-1,8,4,5,0,12,14,7,15,0,-1,12,9,-1,2,12,-1,6,10,4,12,12,0,9,4,12,10,3,14,2,12,10,2,8,2,12,12,2,10,0,12,14,2,6,0,14,12,8,14,2,12,10,3,9,2,14,10,6,10,0,7,12,14,9,8,15,13,4,2,11,3,5,1,
16,24,16,4,15,0,46,46,2,9,4,48,42,5,15,2,46,54,12,-1,4,46,48,3,13,2,46,44,5,12,12,46,44,1,4,0,-1,46,9,14,4,46,42,2,12,10,46,38,6,10,8,50,38,5,8,10,-1,36,15,-1,6,46,46,9,15,0,46,46,3,14,6,46,40,3,15,12,46,44,0,7,4,-1,42,12,15,4,48,42,10,15,10,46,40,4,13,0,46,46,0,6,6,46,44,11,15,10,-1,36,6,14,8,46,44,4,9,12,46,46,0,2,0,46,50,14,8,7,2,3,9,12,15,4,10,11,0,13,1,6,5,
13,24,13,1,12,20,70,54,5,12,24,74,46,2,7,14,70,60,1,5,40,70,54,6,12,34,70,44,10,12,22,70,52,2,5,22,70,52,3,6,8,76,62,0,7,0,74,70,8,12,14,70,60,1,2,24,70,56,10,11,0,74,70,0,-1,22,-1,48,3,5,6,70,68,7,8,2,70,72,0,2,10,74,60,9,10,10,70,72,2,8,28,70,62,3,11,0,70,74,4,9,0,-1,70,0,1,34,70,66,7,9,6,70,70,6,9,10,70,66,1,8,6,74,64,4,2,0,6,9,8,10,7,12,3,5,11,1,
15,24,15,7,8,2,12,10,4,7,2,12,10,4,11,0,12,12,1,5,2,12,10,6,14,2,12,12,0,9,0,12,12,10,14,4,12,10,2,8,4,12,10,2,10,0,12,14,6,13,4,12,12,1,2,2,12,10,5,7,4,12,8,6,-1,4,-1,8,2,9,2,12,10,3,6,0,12,14,0,14,0,12,12,9,14,0,12,12,0,11,0,12,12,8,13,0,12,12,0,3,0,14,12,0,2,2,12,10,9,13,0,12,12,1,13,2,12,12,10,12,2,-1,10,7,0,14,8,3,1,13,10,12,11,2,4,5,6,9,
16,24,16,1,12,30,180,182,1,2,32,180,186,7,13,16,180,186,0,8,22,194,158,0,7,24,180,170,8,13,4,180,190,4,12,40,186,140,9,12,18,180,176,4,5,40,180,146,5,13,4,194,176,11,15,18,-1,162,7,12,20,180,182,5,12,6,180,180,8,12,28,180,180,6,8,32,180,180,6,14,24,180,182,2,3,20,-1,160,3,-1,30,180,-1,1,6,30,206,150,1,14,32,180,174,5,14,30,180,204,7,9,6,194,174,2,5,4,180,214,10,14,40,-1,140,2,3,12,5,14,0,9,4,15,8,11,13,7,10,1,6,
16,24,16,12,15,6,-1,52,13,15,10,58,50,4,8,12,-1,46,7,9,8,58,50,0,13,8,58,50,1,5,12,58,46,9,14,12,58,48,3,14,4,58,54,1,11,0,62,58,0,3,0,58,58,1,2,6,-1,52,11,15,8,58,58,6,10,2,58,56,3,8,4,58,-1,6,9,4,58,54,10,15,4,58,54,1,15,0,58,58,5,9,6,58,52,6,7,12,58,46,10,14,8,58,50,3,11,8,58,54,2,-1,8,58,-1,6,13,6,58,52,10,11,8,58,54,11,15,3,10,9,6,1,5,12,14,0,8,13,7,4,2,
16,24,13,4,5,2,38,32,0,7,6,34,36,9,14,8,34,40,0,8,0,38,34,4,12,4,-1,30,0,2,4,42,30,1,10,6,-1,28,3,15,4,34,46,0,5,4,34,36,15,-1,4,34,34,11,13,10,34,38,0,4,12,34,34,1,13,4,34,44,9,15,8,48,26,4,-1,0,38,34,2,7,6,34,36,1,2,6,34,42,3,13,6,34,44,11,14,2,48,32,5,8,2,34,36,1,7,12,34,42,6,7,8,-1,26,0,15,0,38,34,4,15,10,34,34,8,11,5,0,10,1,9,6,4,12,14,7,2,
16,24,16,8,-1,24,150,160,15,-1,12,150,150,1,15,8,150,146,3,12,28,150,126,1,8,36,150,156,4,14,14,150,140,4,13,12,-1,138,2,-1,38,150,152,0,4,38,150,136,6,12,6,154,144,0,6,6,154,144,5,8,0,184,150,1,14,36,154,114,10,12,38,150,142,0,11,36,-1,114,3,4,2,150,152,3,7,12,164,138,7,-1,38,150,126,0,15,0,154,150,0,5,10,150,174,2,6,4,190,146,9,10,38,-1,112,4,10,18,150,162,6,-1,6,150,156,3,1,8,4,10,7,0,9,15,11,12,6,14,5,2,13,
13,24,13,1,5,12,36,36,5,6,4,36,36,2,6,0,36,40,9,12,10,-1,26,3,6,10,36,36,2,10,6,40,30,5,-1,10,36,30,4,7,2,36,38,1,11,12,36,38,0,6,2,46,34,6,12,10,36,38,11,12,6,36,38,4,5,2,40,34,3,10,6,36,34,5,12,2,36,42,1,3,2,36,40,1,8,10,42,26,3,7,6,36,36,3,-1,6,40,30,7,11,0,40,36,4,8,12,36,30,4,12,12,36,36,3,11,0,36,40,0,3,12,36,34,1,0,2,12,5,6,4,7,8,10,11,9,3,
15,24,15,4,13,14,154,178,10,11,34,154,122,2,5,4,154,152,2,11,10,156,144,0,10,26,154,174,2,13,28,154,160,0,12,36,154,174,4,12,38,154,154,5,10,26,156,128,6,10,32,154,144,2,14,12,158,142,3,9,14,154,162,0,1,24,-1,130,3,11,22,154,136,12,14,38,154,120,12,-1,32,158,122,2,3,8,158,146,6,13,4,178,150,6,8,6,154,170,3,13,26,154,152,10,-1,32,154,126,8,9,0,176,154,0,6,30,154,170,4,7,38,-1,116,8,14,0,5,4,10,13,1,11,2,7,6,12,9,3,
15,24,15,5,11,2,12,12,10,12,0,12,16,5,6,4,12,12,1,11,0,14,12,3,14,4,12,12,9,11,2,12,12,4,6,2,16,10,2,6,4,12,12,0,14,2,12,14,0,11,4,12,10,1,12,0,12,14,3,5,0,14,12,7,14,4,-1,8,4,8,2,12,14,2,11,0,12,14,1,13,4,12,10,0,9,4,14,8,12,-1,0,16,12,2,12,4,12,12,3,12,0,12,14,2,13,2,14,10,6,-1,4,12,12,4,14,4,12,14,8,10,0,16,12,6,2,5,12,1,4,8,7,10,9,0,13,11,14,3,
15,25,15,0,12,2,8,6,6,14,0,8,10,5,7,0,8,10,2,5,0,12,8,0,4,2,8,6,1,2,0,8,12,2,10,4,8,8,1,6,4,8,8,4,11,4,8,8,3,6,4,8,6,10,-1,4,8,8,6,9,2,8,6,4,9,2,8,6,8,10,2,-1,6,1,11,0,12,8,0,13,4,8,6,6,10,0,8,10,10,12,2,8,8,14,-1,0,12,8,5,6,0,8,10,7,13,0,10,8,6,12,0,8,8,7,14,2,8,8,3,4,2,10,6,12,13,2,8,8,13,7,10,2,1,14,9,8,12,5,0,4,3,6,11,
15,25,15,1,5,24,156,166,4,12,22,-1,134,1,8,34,156,150,10,14,36,156,146,6,13,34,156,130,3,-1,16,-1,140,3,14,10,156,-1,11,13,4,164,152,2,6,12,158,144,8,10,8,156,148,8,11,10,156,152,10,11,12,156,144,0,12,36,-1,120,8,14,32,156,154,7,11,0,156,156,6,9,20,156,138,8,12,6,156,150,5,12,16,156,166,2,12,38,156,120,5,8,20,156,166,7,12,2,156,154,6,11,26,156,134,5,14,12,182,144,1,7,2,184,154,8,9,38,158,118,14,7,12,8,11,10,5,13,0,2,9,6,4,1,3,
15,25,15,10,12,2,46,46,7,12,8,48,38,8,-1,12,46,42,1,8,12,-1,34,0,2,10,46,44,0,7,6,46,44,13,14,6,46,42,7,14,10,46,42,3,8,8,48,38,6,10,6,48,40,6,9,8,46,40,3,9,6,46,42,2,14,10,46,44,4,5,2,-1,44,12,14,4,46,44,2,11,4,46,44,4,10,10,46,46,11,14,0,48,46,8,13,2,48,44,2,9,4,48,42,7,13,10,46,38,0,14,2,46,48,2,12,8,46,40,4,14,0,46,56,0,-1,4,54,42,0,10,3,6,5,2,4,13,14,11,9,12,7,8,1,
15,25,15,4,12,0,18,16,0,2,0,16,16,12,13,0,16,20,4,6,0,18,16,1,3,2,16,14,0,6,4,16,16,1,7,4,16,16,11,-1,4,-1,12,1,6,2,16,16,1,14,0,16,16,10,13,2,-1,14,9,14,2,16,14,11,14,0,16,16,0,4,4,16,16,0,1,0,16,16,1,9,2,16,14,4,7,0,18,16,2,8,4,-1,12,2,3,2,16,14,3,12,2,16,16,5,14,2,-1,14,6,14,2,16,16,9,11,2,16,14,4,13,4,16,16,2,7,2,16,16,10,1,5,12,4,13,6,11,9,3,8,14,2,0,7,
16,25,16,0,9,10,64,52,3,8,8,64,54,4,14,10,62,56,7,9,8,62,56,4,7,12,62,64,4,-1,2,62,68,11,13,12,62,58,6,14,10,62,52,11,12,4,70,58,13,15,0,62,62,1,8,0,66,62,13,14,8,62,54,2,8,10,-1,52,3,13,6,62,58,7,14,10,62,54,7,10,8,-1,54,6,-1,12,62,64,8,13,4,62,60,12,14,12,62,54,1,4,4,62,62,8,12,2,62,64,6,15,2,62,60,4,5,12,-1,50,0,8,4,62,60,3,-1,10,62,60,12,5,14,9,13,6,0,15,1,3,7,2,10,8,4,11,
16,25,15,11,-1,6,-1,64,5,13,12,70,66,1,11,10,70,66,11,14,10,70,72,5,10,2,72,68,2,9,10,72,60,5,14,6,70,68,4,6,2,74,68,1,15,10,76,60,3,5,6,70,66,13,14,6,70,68,9,11,12,70,64,7,8,12,70,60,6,15,4,70,72,14,15,12,70,72,2,3,10,70,62,7,10,2,70,70,3,7,6,70,66,0,6,12,70,62,12,14,12,-1,58,0,13,12,74,58,8,14,8,72,62,4,14,0,70,74,3,14,8,72,62,9,14,10,70,62,4,15,12,3,6,10,0,9,11,1,8,14,2,13,5,
15,25,15,11,13,18,140,118,1,10,6,140,130,4,10,4,136,136,0,10,0,144,136,9,12,6,200,130,3,8,38,136,118,5,-1,40,140,96,2,8,38,144,98,10,14,4,144,132,5,13,24,136,116,1,13,22,136,120,2,14,38,136,106,5,7,34,136,140,5,11,32,136,134,5,12,40,136,166,6,7,10,148,126,5,6,18,136,130,3,4,14,156,122,8,13,34,136,110,9,11,38,136,162,0,12,36,136,164,1,11,2,136,138,4,-1,38,136,102,0,7,2,136,146,0,4,8,136,136,5,6,10,8,2,9,0,11,4,12,14,3,1,13,7,
15,25,15,1,8,2,6,6,5,13,0,10,6,2,14,2,6,4,10,12,0,-1,6,1,4,2,6,4,4,14,2,6,4,3,8,0,6,6,1,13,4,6,6,0,6,0,6,6,3,14,0,6,6,5,9,2,6,8,6,-1,0,8,6,9,13,4,6,8,4,11,2,6,4,9,-1,4,6,4,9,10,2,6,4,9,11,2,6,4,1,6,0,6,6,6,9,4,6,4,1,-1,4,6,6,8,11,2,6,6,0,7,0,-1,6,2,4,4,6,2,0,8,0,6,6,6,10,0,6,6,6,10,9,13,5,12,7,11,4,0,2,3,1,14,8,
14,25,14,2,3,8,92,92,0,5,2,92,106,5,12,30,92,78,1,10,40,-1,52,7,10,24,92,114,2,9,0,92,106,0,6,22,92,92,5,13,12,120,80,7,8,30,92,82,3,13,40,92,80,6,8,40,92,86,7,-1,24,92,82,2,12,14,108,78,0,-1,10,92,90,3,-1,26,92,92,0,8,10,100,82,2,6,6,92,94,4,11,0,116,92,2,8,8,92,92,7,9,10,106,82,6,11,30,92,86,3,4,0,100,92,9,10,32,92,106,4,6,6,100,86,4,-1,0,92,100,3,8,12,2,13,9,11,7,5,1,10,4,6,0,
16,25,16,0,11,0,16,18,14,-1,2,16,-1,4,8,2,18,14,4,13,2,16,16,0,2,4,16,16,5,15,2,16,16,8,11,0,18,16,8,15,0,18,16,2,6,4,16,12,2,10,2,16,16,10,12,2,18,14,5,13,0,18,16,0,9,4,-1,12,2,3,4,16,12,1,3,4,16,12,0,1,2,16,16,7,12,4,16,14,6,14,2,16,14,1,7,2,16,14,2,8,4,16,16,7,14,0,16,16,1,11,4,16,16,1,5,2,16,16,0,12,2,16,16,3,14,4,16,14,6,12,8,11,10,2,7,13,9,3,5,0,14,4,15,1,
16,25,16,2,10,2,16,14,13,15,2,16,14,7,11,4,16,12,10,13,2,16,14,5,15,0,-1,16,2,3,2,16,14,3,10,2,16,16,8,12,4,16,18,8,11,2,16,14,0,6,4,16,18,9,10,0,16,18,9,14,4,-1,12,2,9,4,16,14,1,8,2,16,14,1,11,4,16,16,11,13,4,16,14,1,3,2,16,14,3,4,0,-1,16,12,15,4,16,18,0,15,0,22,16,2,7,4,16,12,3,15,0,16,16,6,12,2,22,14,13,-1,2,16,-1,1,15,4,16,14,4,1,12,5,11,10,0,8,14,9,3,13,7,2,6,15,
16,25,16,6,11,2,42,40,2,7,10,42,32,3,11,6,42,36,10,13,12,42,30,12,13,8,42,42,5,6,2,42,40,2,8,2,42,-1,12,14,6,-1,36,0,9,10,42,40,4,12,10,42,40,7,9,2,42,40,5,-1,0,48,42,5,11,0,42,42,3,9,6,42,36,7,11,6,42,40,11,15,8,42,42,4,5,4,50,38,13,15,2,42,40,5,10,10,42,32,2,15,8,42,34,0,-1,2,48,40,0,15,8,42,40,7,12,4,42,46,1,8,0,-1,42,6,9,2,42,40,10,11,6,3,2,14,7,1,15,4,9,12,13,0,8,5,
14,26,13,6,12,2,54,54,6,10,4,54,52,10,11,8,56,46,9,13,10,56,44,2,8,2,56,52,1,8,12,54,52,9,10,2,54,56,1,4,6,54,50,6,-1,4,54,52,1,5,8,56,46,7,10,4,54,52,7,11,6,54,50,0,6,12,-1,42,3,-1,12,56,42,3,12,8,54,48,10,12,8,54,52,7,12,0,56,54,2,3,10,54,48,5,8,6,54,50,1,2,6,54,50,2,13,12,54,44,8,10,12,54,54,4,6,8,54,52,4,9,2,56,52,1,6,8,54,52,9,12,12,54,54,7,10,6,2,13,5,3,8,0,11,12,4,1,
15,26,15,0,7,4,4,4,3,9,4,4,4,2,11,4,4,4,2,8,2,4,4,3,14,0,4,4,11,12,2,4,2,3,4,4,4,4,1,2,0,6,4,5,8,0,4,8,5,-1,4,4,4,9,14,0,8,4,7,11,0,4,4,8,9,4,4,4,8,13,4,4,2,10,12,2,4,2,0,14,0,4,4,3,5,4,4,4,12,13,4,4,0,4,14,0,4,4,4,7,0,4,4,3,13,2,4,2,1,14,0,4,6,4,-1,0,8,4,5,6,0,-1,4,0,8,0,6,4,0,10,0,4,4,4,11,5,0,10,12,6,8,2,3,1,9,7,14,13,
16,26,16,0,10,2,20,16,2,12,2,18,16,0,3,4,18,14,1,5,0,20,18,1,12,0,18,20,0,12,0,18,18,13,14,0,18,18,12,13,2,18,16,4,12,2,18,16,4,6,2,18,16,6,7,4,-1,14,14,-1,4,18,16,0,9,0,20,18,2,15,2,18,16,6,14,2,18,16,9,10,4,18,16,9,11,2,18,18,3,14,2,18,16,11,15,0,18,18,5,13,4,18,16,0,4,4,18,16,11,-1,0,18,20,4,15,4,18,16,8,12,4,18,14,8,11,4,18,14,12,15,0,18,18,12,1,14,10,0,9,11,4,2,5,7,15,13,6,3,8,
13,26,13,3,12,8,18,14,6,8,10,18,18,3,8,2,20,16,3,10,4,18,16,3,6,4,18,20,9,-1,4,18,18,6,-1,2,22,16,8,10,12,18,18,0,8,8,18,12,8,9,12,18,16,9,12,12,18,14,6,11,0,26,18,10,11,8,18,18,2,3,4,18,18,7,12,6,18,14,2,6,2,22,16,7,9,0,20,18,0,4,12,18,-1,3,7,0,18,22,1,2,4,18,18,0,10,8,20,10,11,12,12,18,16,4,5,0,-1,18,1,12,4,20,14,1,9,0,18,20,0,9,12,18,14,11,0,6,4,5,10,8,1,2,7,12,3,9,
15,26,15,2,5,2,12,10,4,13,2,12,10,4,6,0,12,12,10,13,2,12,10,9,12,0,14,12,0,9,4,12,12,4,14,2,12,12,1,2,0,12,12,0,14,2,12,10,1,9,2,12,12,1,4,2,12,10,7,-1,0,12,14,2,8,4,12,12,3,14,4,-1,8,2,9,2,12,12,0,2,0,12,12,10,14,0,12,12,8,14,2,12,12,11,-1,0,14,12,7,8,4,14,8,9,11,4,12,10,1,8,4,12,12,4,10,4,12,12,12,13,2,12,12,5,6,0,12,12,9,10,2,12,12,11,1,5,7,8,13,14,9,2,12,10,6,3,0,4,
15,26,15,7,11,2,18,16,0,12,0,20,18,3,10,0,18,18,4,14,4,18,16,2,14,2,18,16,6,14,2,18,16,4,7,2,18,16,9,11,2,18,18,8,12,4,18,16,4,13,4,18,14,7,9,4,18,16,4,-1,4,-1,14,1,4,2,18,16,8,11,2,18,16,13,14,2,18,16,5,9,2,-1,16,2,3,0,18,18,0,4,0,18,18,0,14,4,18,16,0,9,0,18,18,0,7,4,18,16,6,9,4,18,14,8,10,2,18,16,9,14,2,18,16,10,12,4,18,18,1,8,4,18,14,0,1,11,7,8,5,14,13,6,12,4,3,9,10,2,
15,26,15,2,7,30,146,120,0,12,24,146,126,7,10,28,146,146,3,13,36,146,142,5,11,18,146,148,5,8,18,156,128,12,14,38,146,146,6,8,22,146,134,4,13,26,-1,120,3,14,20,146,130,10,11,0,146,158,9,11,2,-1,144,2,13,16,150,130,3,-1,26,-1,120,1,3,0,154,146,6,13,38,146,136,8,11,32,146,130,1,2,28,146,126,1,11,22,146,136,5,10,10,146,148,5,14,24,146,132,0,14,24,150,122,12,13,24,150,122,6,7,0,150,146,6,10,4,146,146,3,10,10,150,136,9,6,3,11,2,0,5,10,4,14,1,7,8,13,12,
12,26,12,0,4,4,30,26,4,-1,6,30,32,1,11,4,30,26,6,8,12,30,26,1,6,0,30,30,2,6,4,30,26,3,6,8,30,24,3,4,10,30,26,1,8,6,30,26,0,9,8,30,22,1,10,12,30,22,5,7,6,30,24,0,7,6,30,26,3,-1,6,30,32,2,8,0,30,32,2,9,6,30,24,2,4,4,30,28,8,10,4,34,26,6,11,12,30,26,0,11,10,30,20,3,10,12,30,22,4,5,6,30,24,2,3,4,30,26,3,7,4,30,26,0,3,6,30,26,1,9,8,30,22,5,4,7,1,11,0,8,9,10,2,6,3,
16,26,16,2,4,0,36,34,2,7,10,34,26,1,6,0,44,34,8,13,12,-1,22,3,14,0,-1,34,3,10,12,34,30,2,10,10,34,30,8,15,2,-1,32,0,5,10,34,34,1,4,8,34,36,5,10,6,36,28,0,11,10,34,34,4,6,12,34,36,5,12,10,34,30,5,8,8,34,34,9,10,2,34,38,3,11,2,34,40,9,12,0,40,34,0,10,8,34,28,3,5,12,34,34,8,11,2,42,32,2,6,12,34,36,4,5,2,34,34,0,7,12,36,22,3,4,0,34,42,5,6,2,34,42,8,0,6,13,14,12,15,10,5,2,3,7,4,9,1,11,
15,27,15,4,11,24,124,98,9,10,28,122,98,7,13,20,122,122,3,7,16,122,114,0,5,30,122,94,1,9,8,124,114,3,10,40,122,120,1,11,2,122,122,3,12,34,122,92,7,8,4,130,118,1,13,12,122,116,0,-1,18,124,104,4,8,22,122,108,5,8,38,122,106,6,14,2,136,120,3,-1,18,122,106,3,13,16,124,106,1,14,28,122,116,9,-1,30,122,110,11,14,18,122,118,2,9,32,122,100,4,13,16,122,108,10,12,28,126,94,2,6,20,122,104,6,9,4,122,120,6,-1,40,122,114,2,5,22,124,100,5,14,0,11,6,8,1,13,9,2,3,12,10,7,4,
16,27,16,5,6,0,18,14,0,12,0,14,16,5,8,4,14,14,0,3,0,14,14,2,15,2,14,12,11,12,4,14,10,2,-1,4,14,14,3,4,0,14,14,3,5,4,14,14,3,-1,4,14,14,6,13,2,18,12,8,13,2,14,16,13,15,4,14,14,7,12,2,14,12,7,9,2,14,12,4,15,2,14,12,2,8,0,14,14,14,15,0,14,16,9,11,4,14,10,5,9,4,14,14,1,-1,4,14,14,12,-1,2,14,14,9,12,2,14,14,14,-1,2,14,14,6,10,4,-1,10,0,8,0,14,14,1,14,0,18,14,10,13,3,12,4,5,8,0,7,6,2,9,15,11,14,1,
16,27,16,10,12,8,62,56,4,7,8,62,62,2,7,6,62,62,2,11,8,62,54,12,13,6,62,58,0,9,4,62,60,4,9,0,62,62,0,7,12,62,60,14,15,4,62,62,8,14,8,-1,54,7,14,4,62,62,2,9,0,62,62,4,10,10,62,52,1,-1,10,62,58,9,-1,4,62,64,0,10,12,62,50,3,7,8,-1,54,4,6,8,62,60,1,2,8,68,54,2,12,8,62,60,5,13,10,62,52,5,7,12,62,54,6,12,0,68,62,11,13,10,62,52,0,5,10,62,52,2,15,8,66,54,2,4,4,62,62,5,0,12,11,6,10,3,15,14,1,8,2,9,4,7,13,
16,27,16,2,6,2,-1,12,1,11,4,14,14,11,15,0,14,14,6,15,2,14,14,0,9,2,-1,12,6,13,4,14,12,3,13,4,14,10,4,5,0,14,14,3,11,0,14,14,10,-1,0,-1,14,5,15,0,14,14,8,14,4,14,12,7,11,2,14,14,1,5,0,16,14,4,-1,4,14,14,5,7,4,14,14,4,8,2,14,12,1,3,2,14,14,7,14,2,14,12,9,-1,0,18,14,9,12,2,14,12,3,12,2,14,12,7,8,2,14,12,9,13,4,14,10,8,9,2,14,12,1,15,2,14,14,12,14,4,14,10,9,10,3,1,12,11,5,2,8,13,15,6,7,0,4,14,
16,27,15,0,6,4,70,62,2,-1,8,74,58,1,2,8,66,70,1,8,12,66,62,10,15,4,70,62,6,12,2,66,68,0,1,12,66,64,12,15,8,66,62,5,9,12,66,64,10,13,6,68,60,6,11,8,-1,58,9,13,4,66,70,2,9,6,66,68,6,-1,10,66,64,1,9,2,66,72,3,13,2,66,66,3,5,6,76,60,6,8,6,74,60,12,14,6,70,60,10,-1,12,66,62,1,4,12,-1,54,0,14,12,66,58,2,10,8,66,70,7,10,6,68,60,3,7,12,66,56,7,12,6,66,64,1,13,12,66,68,10,11,15,6,4,0,3,2,7,1,13,8,12,14,5,
16,27,16,14,15,2,34,34,3,-1,6,34,38,4,10,4,36,30,8,-1,8,34,36,1,13,12,34,26,7,15,0,34,36,7,9,2,36,32,0,4,2,34,34,5,7,0,34,36,10,12,12,34,24,1,15,10,34,26,11,14,6,36,28,2,5,0,34,44,0,9,2,34,34,0,13,12,34,34,0,5,10,34,34,0,6,2,36,32,8,12,8,36,26,2,3,4,44,30,8,13,2,34,34,7,11,10,34,30,13,15,0,36,34,1,5,8,36,26,1,4,8,34,28,4,5,2,34,34,6,11,8,34,28,14,-1,12,34,36,10,9,13,8,5,4,11,1,14,12,15,7,6,3,0,2,
13,27,13,0,6,30,110,104,5,-1,16,-1,94,4,9,6,120,104,1,6,22,114,88,3,4,34,110,94,2,11,32,110,94,1,8,34,110,110,1,5,34,110,108,0,12,34,110,98,5,7,30,110,120,3,10,30,110,90,1,11,28,110,92,3,12,32,120,78,0,7,6,114,104,7,12,16,110,104,2,8,8,120,102,2,9,16,110,104,4,10,4,120,106,0,1,22,110,92,2,5,14,110,120,8,9,38,110,112,4,8,8,110,112,4,11,16,120,94,0,5,16,110,118,6,7,10,110,104,6,11,40,110,98,0,3,32,110,88,2,8,1,5,12,11,9,3,10,7,6,0,4,
14,27,14,5,10,4,12,12,0,9,2,12,10,3,6,4,12,10,3,12,4,12,12,4,13,4,12,10,10,11,0,12,12,4,12,0,12,12,2,7,0,12,12,3,5,0,12,12,6,11,4,12,10,4,11,0,12,12,8,10,2,12,10,7,11,4,12,10,3,10,2,12,12,1,11,4,-1,8,8,12,4,12,10,4,6,2,12,10,11,12,4,12,12,0,13,2,12,10,2,4,4,12,10,8,9,4,12,8,6,7,0,12,12,9,12,2,12,10,5,13,2,12,10,12,13,2,12,10,8,13,4,12,8,2,3,2,12,10,6,2,13,7,5,8,0,12,1,4,10,9,3,11,
16,27,16,10,14,2,62,68,6,8,10,62,54,7,10,6,62,58,4,12,0,64,62,4,5,0,62,64,4,10,10,62,62,7,9,4,62,60,6,15,10,62,54,0,14,12,-1,50,4,7,6,62,58,3,-1,0,64,62,7,15,4,62,62,2,-1,4,70,58,12,14,6,62,64,6,9,12,64,50,2,14,10,62,60,4,11,6,-1,56,15,-1,12,62,56,7,8,0,64,62,10,-1,2,62,62,1,12,12,-1,50,4,15,6,64,56,3,12,0,62,64,3,5,2,62,62,3,9,12,62,54,10,12,0,64,62,5,13,10,-1,52,11,10,1,12,6,9,5,0,8,14,7,13,4,15,2,3,
16,27,16,5,10,2,-1,92,14,-1,28,94,100,0,12,32,94,86,11,12,22,98,72,4,6,0,94,98,5,13,14,94,84,2,6,12,96,82,0,7,22,-1,72,13,-1,14,94,110,6,-1,40,94,106,8,-1,34,94,100,1,13,18,94,78,9,14,4,94,92,6,8,6,94,90,4,11,8,94,90,13,15,4,120,90,3,9,40,94,84,2,13,16,94,80,8,14,0,96,94,1,3,36,94,72,5,12,6,94,92,3,4,2,108,92,8,15,38,94,82,0,14,10,94,108,3,11,40,94,88,5,-1,26,94,98,1,9,30,96,64,9,10,12,13,14,15,7,11,2,3,4,5,1,8,0,6,
16,27,14,7,10,2,46,38,7,13,6,40,40,2,-1,4,40,46,5,9,2,40,40,1,15,8,40,38,10,14,2,40,44,1,10,4,40,42,8,13,10,46,30,6,8,12,40,34,5,15,6,42,34,12,14,4,46,36,4,6,4,40,48,1,2,2,40,44,9,11,6,42,34,10,12,12,40,38,13,15,10,40,36,3,14,12,40,36,12,-1,8,40,42,3,15,10,40,32,4,13,8,40,46,2,6,6,46,34,4,7,10,40,42,3,11,2,40,40,5,7,12,40,40,7,9,0,40,46,5,12,10,40,36,0,3,6,-1,34,7,12,3,10,5,0,14,11,2,15,6,8,13,9,
13,28,13,6,12,0,8,8,8,12,0,12,8,2,9,2,8,6,1,7,0,8,8,4,12,0,8,8,9,10,2,8,6,0,1,0,8,8,4,5,4,8,6,2,10,4,8,8,3,11,4,8,8,0,10,4,8,6,4,10,2,8,6,7,12,2,8,8,1,9,4,8,8,7,10,2,8,6,2,12,2,8,6,0,3,0,8,8,6,10,2,8,6,3,7,4,8,8,4,7,2,8,8,3,6,0,8,8,10,11,4,8,6,0,9,4,8,8,3,8,4,8,8,6,9,4,8,8,5,11,4,10,4,11,12,4,8,8,1,-1,0,-1,8,7,5,10,6,0,11,12,4,9,2,1,8,3,
15,28,15,3,6,2,28,28,7,10,4,28,30,5,12,8,28,30,2,13,10,28,28,13,-1,12,28,26,8,13,2,28,28,1,8,10,30,18,4,6,10,28,24,10,13,2,30,26,2,-1,2,32,26,5,10,2,28,30,4,14,2,30,26,2,7,0,34,28,2,6,8,28,28,0,5,0,32,28,0,4,4,28,26,6,10,2,28,30,9,14,0,-1,28,0,3,0,28,30,7,-1,12,28,26,6,14,2,30,26,0,12,2,28,30,2,3,0,32,28,12,14,4,28,30,11,12,10,-1,18,0,2,10,28,28,1,10,12,28,18,12,-1,4,28,28,11,13,9,8,1,2,4,5,6,3,14,7,10,0,12,
15,28,15,8,-1,4,46,36,0,1,4,42,36,5,7,6,40,34,0,5,0,40,40,11,12,10,40,36,3,12,10,40,30,9,14,2,42,38,3,6,12,40,28,1,6,10,40,34,7,8,12,40,40,11,13,2,42,38,1,13,12,40,30,1,4,12,40,30,8,9,4,40,42,5,-1,10,40,36,2,7,8,-1,32,4,9,12,40,34,9,11,0,40,42,10,12,6,40,34,0,12,0,40,40,7,10,0,40,40,0,8,10,40,40,8,11,4,40,42,10,14,4,40,38,4,6,4,42,36,4,8,12,40,38,6,7,4,40,36,0,4,12,40,34,10,0,7,14,6,11,13,2,8,1,5,12,4,9,3,
15,28,15,8,12,38,124,116,10,13,8,128,116,1,9,34,124,114,5,12,16,124,112,4,8,20,124,124,5,9,14,128,110,6,12,38,124,124,1,13,0,124,126,9,14,38,124,90,8,9,18,124,114,6,10,0,124,128,0,7,32,-1,92,11,12,6,128,118,1,-1,24,126,100,3,10,24,124,116,3,-1,26,124,100,2,3,0,124,126,2,13,0,124,126,2,8,0,132,124,5,6,36,124,108,12,13,22,124,116,9,10,6,124,122,0,5,38,124,108,1,11,34,124,110,3,4,0,128,124,6,14,40,128,84,4,11,18,124,110,0,8,8,124,138,13,4,1,10,14,11,9,6,2,7,5,8,12,0,3,
16,28,15,8,14,24,188,170,10,12,8,194,180,4,11,34,194,154,4,13,22,188,172,11,15,10,188,184,6,11,18,188,176,6,8,8,188,184,0,-1,24,188,168,0,7,26,188,182,10,15,16,188,178,3,6,26,188,182,4,9,24,188,178,2,11,26,188,172,4,12,22,188,172,13,15,22,188,180,3,11,40,188,172,2,9,4,188,190,2,3,0,208,188,0,2,8,188,186,0,10,20,188,182,12,13,28,188,188,0,5,40,188,152,6,-1,28,192,160,7,11,20,188,174,9,13,8,194,180,5,8,40,192,148,1,15,40,-1,148,7,14,30,194,158,4,15,11,2,13,12,1,3,5,8,14,9,10,6,7,
13,28,13,1,6,0,26,30,2,3,6,26,24,7,11,12,26,28,0,6,8,26,26,3,5,2,36,24,0,9,4,28,22,4,12,2,28,24,4,8,4,26,26,6,11,2,26,28,7,10,8,26,26,0,5,12,26,24,1,8,2,26,28,4,9,4,26,24,7,9,10,26,26,6,9,6,26,26,6,7,0,32,26,10,11,2,34,24,1,12,2,26,28,5,6,12,26,26,1,-1,10,-1,16,3,11,0,26,30,2,8,6,30,20,0,8,4,26,26,0,3,2,26,26,1,9,8,26,26,4,7,6,26,26,2,11,8,26,24,3,12,2,26,26,12,10,4,2,6,7,0,3,1,9,8,5,11,
15,28,15,2,4,4,132,134,6,8,40,132,104,6,13,26,146,106,5,-1,28,150,104,3,12,14,132,132,3,11,2,138,130,2,8,28,138,104,6,11,4,132,138,3,-1,26,132,124,10,14,0,132,142,7,12,6,146,126,3,8,38,132,100,9,12,12,132,130,1,4,2,138,130,2,12,6,132,132,11,13,36,132,110,1,11,36,132,128,7,11,18,132,128,11,12,2,132,136,5,12,20,132,130,11,14,2,132,136,6,9,8,132,134,7,14,34,132,128,0,1,30,132,108,2,14,18,132,128,0,14,36,138,96,6,12,36,132,138,9,10,4,142,128,0,3,13,14,1,2,10,12,4,6,5,11,8,7,9,
16,28,16,1,8,8,194,178,4,7,22,194,164,9,-1,30,186,158,12,13,8,200,178,1,10,18,188,168,3,9,28,188,158,1,13,26,186,184,0,5,26,186,182,6,10,22,186,166,3,6,24,186,164,5,6,2,208,184,6,15,32,186,172,1,12,24,186,176,0,11,30,-1,156,4,13,20,186,180,3,14,36,186,158,4,6,32,186,178,0,8,10,186,198,6,14,36,186,182,2,-1,14,-1,172,14,15,28,194,158,5,13,36,186,188,6,7,30,186,182,9,10,18,186,170,4,15,32,186,162,3,13,26,186,174,1,-1,28,188,158,7,8,26,186,168,2,3,12,15,7,4,1,11,5,8,14,9,6,10,0,13,
16,28,15,5,6,22,150,126,7,15,22,148,136,11,12,32,148,118,1,6,14,148,136,7,10,36,148,138,2,3,2,188,146,6,14,10,156,138,5,8,26,148,124,0,8,34,148,146,9,10,12,148,146,13,-1,34,148,138,11,14,40,148,124,0,2,40,148,164,10,15,40,148,134,5,10,34,148,124,1,7,24,150,124,11,15,28,148,146,0,4,18,-1,130,3,13,18,148,160,3,8,22,148,156,9,15,26,158,122,6,-1,4,172,144,2,10,32,148,156,7,13,18,148,132,0,5,22,148,158,12,14,34,148,122,8,11,18,150,130,12,13,24,150,124,5,12,15,13,7,8,4,1,11,14,6,3,9,2,0,
15,28,15,1,14,12,36,34,2,4,2,-1,34,13,14,6,36,34,10,11,2,38,34,5,8,6,36,36,6,10,8,36,30,2,3,0,42,36,3,12,12,36,30,7,11,12,36,36,0,6,4,38,32,5,9,10,40,26,1,-1,12,36,28,0,1,2,38,34,12,14,6,38,30,2,14,0,36,38,3,11,10,36,36,2,11,0,36,38,2,-1,6,40,30,9,13,12,36,28,12,13,12,36,28,5,6,8,36,32,7,12,8,36,30,8,13,2,40,34,11,13,6,36,34,2,10,6,36,34,0,7,2,38,34,8,14,0,36,40,1,11,4,36,34,12,9,11,7,14,3,2,13,1,10,4,8,5,6,0,
15,28,15,5,7,0,14,14,3,13,2,14,12,1,5,4,14,10,4,13,2,14,12,1,2,2,14,12,10,13,2,14,12,0,2,2,14,12,8,12,4,14,14,3,5,4,14,12,2,8,2,14,14,1,12,2,14,12,5,9,2,14,12,3,10,4,14,14,3,7,2,14,12,8,10,0,14,14,9,12,0,14,14,8,11,2,14,12,6,12,4,14,12,4,12,0,14,14,3,4,0,14,14,4,9,4,14,14,6,8,2,14,12,5,11,0,14,14,8,-1,4,-1,10,0,6,0,14,14,1,3,4,14,12,7,12,4,14,12,6,14,2,-1,12,4,6,7,2,9,1,3,8,5,12,0,10,13,14,11,
15,29,15,2,4,0,12,12,7,10,4,12,10,11,14,2,12,12,6,13,4,12,12,1,8,4,12,10,4,13,0,12,12,0,4,4,12,8,2,7,2,12,12,9,10,0,12,12,1,14,2,14,10,2,9,2,12,10,3,14,2,12,12,6,11,0,16,12,5,9,0,14,12,8,14,0,12,12,0,11,4,12,8,11,-1,2,-1,10,8,13,0,12,12,3,5,4,12,10,2,3,0,12,12,3,11,0,12,12,4,14,2,12,12,2,12,2,-1,10,1,2,4,12,10,8,11,0,12,12,10,14,2,12,10,7,13,0,14,12,13,14,4,12,12,7,11,4,12,12,0,9,1,7,5,3,13,10,2,8,11,12,6,4,14,
16,29,16,1,9,12,110,120,2,15,36,110,118,2,7,8,122,102,2,10,22,110,108,12,13,36,110,96,5,15,2,124,108,0,2,0,122,110,0,1,22,110,100,0,10,10,110,108,5,10,12,110,112,1,8,12,122,98,9,12,14,132,96,0,3,2,110,116,2,5,34,110,120,0,4,12,110,120,4,6,16,110,116,7,-1,32,110,-1,7,8,10,110,112,3,11,30,110,88,0,12,34,110,98,2,14,20,-1,90,11,15,38,110,86,4,13,14,132,96,8,10,14,110,110,3,9,28,110,114,3,6,6,132,104,2,12,38,110,98,4,15,14,110,126,10,11,34,118,76,2,6,1,4,3,10,14,11,9,15,7,12,5,0,13,8,
16,29,16,9,12,0,14,8,14,15,2,10,6,3,13,4,8,8,5,10,2,8,6,8,15,4,8,6,8,11,4,8,10,5,8,0,8,8,1,5,0,10,8,2,8,2,8,6,11,12,0,8,14,1,11,4,8,10,8,14,0,8,8,5,7,4,8,6,1,9,4,8,10,10,-1,0,8,-1,4,13,0,12,8,10,14,2,8,6,3,6,0,10,8,3,4,2,8,8,7,10,0,8,8,4,14,0,8,10,4,9,2,8,10,8,10,2,8,6,5,9,2,8,10,3,10,4,8,6,2,7,0,8,8,6,8,0,8,10,1,10,4,8,6,0,11,4,-1,4,9,5,0,15,13,14,11,10,3,2,8,6,4,7,1,12,
14,29,14,5,8,36,132,138,7,8,40,132,124,12,-1,36,132,130,0,7,18,150,114,3,11,8,132,138,3,5,2,174,130,9,12,38,132,146,2,-1,20,132,146,11,12,6,132,140,10,12,8,134,124,4,9,22,132,136,3,8,34,132,140,10,13,40,132,118,2,9,36,166,96,8,13,14,158,118,3,9,16,132,148,4,6,18,158,114,0,9,22,132,150,9,10,22,132,142,8,9,14,132,154,3,12,2,132,132,8,10,18,132,132,0,4,34,132,154,3,10,8,132,126,1,8,38,132,112,1,11,36,150,96,6,9,22,132,136,3,7,34,132,116,0,3,2,132,148,7,1,12,0,10,13,5,8,11,9,6,2,3,4,
15,29,15,1,13,8,108,126,5,14,0,108,108,11,14,2,108,106,0,8,6,108,144,2,14,4,116,104,3,4,24,118,84,0,9,22,108,118,0,2,40,108,122,3,12,20,108,120,13,14,34,108,122,3,14,26,108,104,6,9,10,116,98,9,11,26,108,106,0,1,12,134,96,0,12,32,108,102,3,10,14,108,110,7,10,16,126,92,8,10,20,108,130,3,5,12,108,104,3,6,6,108,110,8,14,40,108,124,5,11,2,108,106,8,-1,38,-1,70,12,13,2,134,106,10,14,6,108,118,2,9,4,108,112,11,13,40,108,120,7,9,28,108,98,4,14,38,108,80,7,12,0,10,2,9,8,1,5,11,4,14,13,3,6,
15,29,15,10,14,20,160,162,10,13,38,160,146,3,8,36,160,148,6,7,30,160,154,1,6,20,164,140,2,8,14,182,146,0,3,6,170,154,7,12,2,164,158,1,3,34,160,136,7,9,34,164,126,4,5,28,160,136,4,6,4,164,156,9,14,34,160,150,0,7,8,160,162,0,1,40,160,142,7,13,6,164,154,2,14,0,160,182,0,4,16,160,164,0,2,24,160,158,9,10,26,160,138,0,6,16,160,162,1,12,32,160,132,5,10,22,164,138,8,9,38,160,144,1,13,36,160,128,6,-1,30,-1,130,3,10,28,160,154,11,14,22,-1,138,3,6,20,160,156,0,12,14,5,4,7,2,10,13,6,8,9,1,11,3,
16,29,16,9,13,32,136,118,11,13,26,136,142,10,11,14,144,122,0,11,4,136,140,4,11,4,158,132,6,15,22,144,114,1,11,4,136,144,6,11,16,136,130,0,6,24,136,126,0,7,6,144,130,4,-1,0,136,170,4,15,34,136,124,1,8,24,136,128,6,10,28,136,116,2,14,4,-1,132,7,15,18,136,126,8,12,24,136,124,8,10,38,136,112,7,13,10,136,140,9,11,24,150,112,2,6,8,136,-1,8,13,18,148,118,4,13,30,136,138,3,11,24,136,140,10,13,20,136,128,11,-1,38,136,132,3,9,28,136,136,3,5,40,-1,96,1,12,4,148,132,0,9,13,8,6,12,3,2,11,14,15,1,4,7,5,10,
15,30,15,2,5,8,32,26,2,10,6,32,28,3,-1,4,32,30,2,11,12,32,34,7,-1,8,34,24,3,14,2,32,30,5,7,4,32,30,3,4,8,32,32,9,12,8,32,26,1,3,10,32,28,3,6,2,32,32,3,7,10,32,28,2,14,10,32,28,11,12,8,32,28,3,8,12,32,36,8,13,8,-1,24,8,-1,10,32,32,5,14,10,32,30,7,8,8,32,34,0,14,2,32,30,0,2,8,32,26,9,10,8,32,30,3,12,12,32,20,1,10,6,32,30,6,10,0,34,32,4,5,0,40,32,3,10,12,32,32,2,9,2,34,30,1,11,0,36,32,0,12,12,32,20,11,8,6,12,0,3,7,4,13,14,1,10,2,5,9,
15,30,15,6,9,2,34,34,5,11,8,34,34,9,12,8,34,28,1,13,8,34,42,8,11,10,34,34,4,8,0,36,34,3,9,0,36,34,10,12,10,-1,24,1,2,12,34,32,7,11,4,34,34,12,13,12,34,40,1,14,4,34,32,9,13,12,34,38,2,6,8,34,26,13,-1,10,-1,24,0,11,4,36,30,1,11,4,34,34,5,9,4,34,32,8,12,0,34,34,6,7,6,34,28,0,7,6,34,30,2,8,0,34,34,0,9,12,34,26,4,11,2,34,34,5,14,2,36,32,7,12,2,34,32,7,13,8,34,42,1,7,0,36,34,2,9,10,34,28,2,3,8,34,28,5,1,10,2,13,9,11,4,7,0,6,12,3,14,8,
16,30,16,14,-1,34,150,170,3,11,34,150,150,7,-1,30,150,162,4,10,30,150,162,6,13,32,150,146,2,9,34,150,154,4,12,28,150,170,3,12,6,150,160,12,-1,16,150,176,1,3,2,166,148,1,15,8,150,158,6,11,10,178,140,4,9,20,150,172,2,3,22,150,156,7,12,4,164,146,1,9,4,188,146,14,15,0,166,150,2,4,30,150,174,11,-1,24,150,172,10,12,8,164,142,8,11,28,150,150,1,6,38,150,142,1,8,26,172,124,4,14,32,150,174,10,14,12,150,154,7,10,26,150,138,2,13,16,178,134,5,12,40,-1,110,8,14,40,150,132,0,4,40,-1,110,4,9,1,14,7,0,15,11,13,6,3,5,2,10,8,12,
15,30,15,8,14,8,108,104,0,9,2,114,106,9,13,6,108,108,1,13,2,108,110,13,14,6,108,110,13,-1,10,112,98,9,14,24,108,108,1,3,4,112,104,2,6,38,108,110,8,11,2,112,106,6,14,40,108,106,8,10,20,108,92,9,-1,32,108,98,1,4,0,108,114,11,-1,22,108,90,1,5,18,118,90,1,7,32,108,80,3,11,18,108,94,7,14,28,112,80,4,6,2,118,106,2,11,14,108,126,4,-1,30,108,100,5,6,30,108,88,2,12,14,-1,94,1,8,30,108,100,0,13,2,108,112,0,4,2,108,112,1,10,28,112,80,5,9,32,108,90,2,3,32,108,108,13,10,4,7,11,9,6,12,8,14,3,0,5,1,2,
16,30,16,4,10,4,28,26,2,11,6,28,24,2,13,2,28,28,1,6,2,28,28,1,15,4,30,24,3,12,8,-1,20,2,8,10,28,26,2,4,4,28,28,15,-1,0,28,-1,10,11,12,28,28,9,11,0,30,28,11,14,0,36,28,9,10,0,28,28,6,9,0,30,28,1,10,0,28,28,1,12,12,28,28,5,9,0,28,28,4,15,8,28,22,5,15,12,28,24,0,1,0,-1,28,4,13,0,30,28,5,11,4,28,28,8,14,2,28,34,7,8,12,-1,16,1,11,12,28,28,2,12,4,30,24,1,5,0,28,28,6,8,12,28,30,2,9,6,28,24,11,12,0,30,28,2,12,3,8,9,14,5,6,7,15,11,4,13,0,10,1,
16,31,16,3,8,0,12,10,4,8,0,10,10,6,15,4,10,6,0,1,2,10,8,6,10,2,10,8,9,11,4,10,6,13,-1,4,10,10,1,13,0,10,10,2,15,2,10,8,1,5,2,10,10,13,14,0,10,10,2,9,2,10,8,8,12,0,10,10,0,5,4,10,8,4,5,0,10,10,5,10,0,10,10,5,14,0,10,10,0,-1,4,10,8,8,10,0,10,10,4,7,0,10,10,7,11,2,10,8,11,12,4,10,8,5,8,0,10,10,3,7,2,10,10,2,-1,2,10,10,0,14,2,10,8,4,13,2,10,10,12,14,0,10,10,8,11,2,10,8,15,-1,2,10,10,11,13,2,10,8,13,8,12,14,9,11,1,2,0,10,5,7,4,6,15,3,
16,31,16,5,6,4,22,20,14,15,2,22,24,1,2,2,22,20,2,3,4,22,20,0,15,2,22,22,9,10,2,22,22,1,14,2,22,22,3,7,2,22,20,6,11,4,22,22,9,13,0,24,22,7,11,2,22,20,0,7,0,24,22,5,7,0,24,22,1,15,2,22,22,1,6,4,22,20,2,5,2,22,22,5,14,4,22,22,1,3,4,22,18,7,10,4,24,18,6,-1,4,22,18,8,11,2,22,22,6,8,4,22,22,5,13,4,22,20,11,-1,4,22,18,8,14,0,24,22,6,15,2,22,22,12,15,4,-1,18,3,5,4,22,20,2,6,2,22,20,7,8,2,22,22,4,-1,4,-1,18,4,15,5,12,6,13,11,1,8,7,10,0,3,2,14,9,
16,31,16,4,15,4,20,20,3,11,4,20,16,8,12,4,20,18,6,13,0,22,20,4,10,4,20,18,1,15,2,22,18,5,14,4,20,16,0,13,4,20,18,2,-1,2,20,20,0,10,4,20,18,1,12,4,20,18,1,4,2,20,20,0,5,4,20,16,2,14,0,22,20,0,7,2,-1,18,8,10,2,20,18,2,4,0,20,22,2,3,4,20,20,0,14,4,20,20,0,4,4,20,20,0,9,4,20,16,3,4,4,20,20,3,10,2,20,18,9,13,2,20,18,11,14,4,20,16,13,14,2,20,18,4,12,2,22,18,0,11,4,20,16,15,-1,0,20,22,8,13,2,20,18,4,6,4,20,18,12,10,3,8,9,0,13,6,1,15,7,11,5,4,14,2,
15,31,15,2,7,26,142,148,8,12,36,142,136,9,13,40,142,150,4,8,20,172,122,3,4,14,142,156,0,5,16,-1,126,1,7,8,142,168,1,14,34,-1,108,3,12,0,172,142,1,11,38,142,154,8,9,38,142,146,1,2,32,142,154,7,12,40,142,152,2,11,10,142,134,2,4,18,142,152,0,12,38,142,148,1,12,24,142,158,2,9,34,142,148,7,9,0,174,142,0,3,6,142,174,6,11,2,142,142,11,13,8,190,134,6,10,14,174,128,0,2,36,142,144,7,11,28,142,158,3,6,6,144,136,2,3,4,144,138,3,11,8,142,138,6,-1,40,-1,102,9,10,30,142,144,1,8,22,142,154,6,9,1,14,0,10,13,7,11,12,5,3,8,4,2,
15,32,15,11,13,4,12,12,1,9,0,12,14,4,9,2,12,12,5,12,0,14,12,2,9,0,14,12,7,10,2,12,12,10,12,4,12,12,4,6,2,12,12,6,12,4,12,12,8,14,4,12,10,11,12,2,12,12,9,13,4,12,12,5,6,2,12,12,1,4,0,14,12,5,13,4,12,14,2,11,2,12,12,3,4,2,-1,10,6,11,2,14,10,2,12,4,12,14,2,4,4,12,12,7,12,0,12,14,0,13,4,12,14,4,13,0,14,12,12,-1,4,-1,8,8,10,4,14,8,0,12,0,18,12,12,13,2,12,14,10,13,4,12,14,7,14,0,14,12,8,12,4,12,10,0,2,4,12,14,1,13,2,12,12,14,2,10,6,7,11,9,4,13,8,3,0,1,5,12,
15,32,15,4,11,12,32,28,8,10,10,32,28,1,4,4,32,28,1,5,8,32,30,2,10,2,32,32,2,-1,2,36,30,11,-1,8,32,28,4,8,6,32,26,11,13,2,34,30,12,14,12,32,24,1,9,2,34,30,2,8,4,32,28,10,13,10,32,28,5,8,10,32,28,3,-1,10,32,30,5,7,4,32,30,3,14,0,34,32,4,13,8,32,26,0,6,10,32,22,6,10,12,32,28,5,12,8,32,24,3,6,4,32,28,0,2,6,32,26,4,6,10,32,26,2,14,12,32,32,7,10,2,34,30,11,12,6,32,28,2,9,6,32,28,1,12,6,32,26,2,6,12,32,28,3,5,0,32,32,10,14,0,32,34,8,12,7,10,4,5,2,6,13,11,3,9,0,1,14,
16,32,16,0,11,0,2,2,4,14,2,2,2,6,10,0,2,2,15,-1,4,2,2,9,11,4,2,2,3,9,0,-1,2,5,6,4,2,2,7,15,0,4,2,5,10,2,2,2,2,5,0,2,6,1,7,2,2,0,6,11,4,2,2,5,7,0,4,2,4,11,0,2,2,0,6,2,2,2,11,15,2,2,2,13,15,2,2,2,7,13,0,2,2,7,12,0,2,2,6,9,0,2,2,8,15,4,2,2,7,14,0,2,2,12,14,0,2,2,0,9,0,2,2,11,-1,0,2,6,0,12,2,2,2,2,8,0,6,2,0,7,0,2,2,10,13,0,2,2,1,10,2,2,0,4,9,0,2,2,0,10,4,2,2,9,13,0,5,4,3,2,15,14,6,8,10,7,1,12,11,
16,32,16,6,-1,2,6,-1,9,11,0,6,6,1,7,0,8,6,5,11,0,6,6,0,2,4,6,4,12,13,0,6,8,11,12,2,6,6,5,6,0,8,6,2,6,4,6,6,8,14,0,8,6,0,12,2,8,4,6,13,2,6,6,12,14,4,6,6,2,11,2,6,6,4,9,2,6,4,4,5,2,6,4,6,14,2,6,6,13,15,4,6,4,1,3,0,6,8,6,15,4,6,4,3,15,2,8,4,4,11,2,6,4,10,14,4,6,6,10,11,2,6,6,3,6,4,6,6,6,7,2,6,6,10,13,0,8,6,1,14,2,6,6,2,5,0,8,6,0,1,2,6,6,4,13,2,6,6,7,8,0,6,8,14,8,5,11,13,0,15,9,12,6,10,1,2,4,7,3,
16,32,16,12,14,24,120,102,15,-1,8,120,126,8,-1,24,120,104,9,11,4,126,116,3,14,24,126,96,3,7,40,120,98,0,-1,26,120,120,7,11,0,120,126,0,2,8,136,112,5,13,6,120,120,6,11,8,120,118,1,7,32,120,94,6,15,32,120,120,0,9,0,120,128,5,15,4,120,124,9,-1,8,120,120,4,14,24,120,114,10,15,0,-1,120,3,6,26,120,100,4,7,38,120,114,1,14,32,120,100,7,8,20,128,100,3,5,38,120,94,5,11,40,120,118,4,13,10,126,110,4,9,16,120,110,6,12,20,126,100,0,15,10,120,118,1,5,34,126,86,6,9,2,120,124,2,9,24,120,112,9,13,26,120,120,1,14,15,9,10,5,8,12,6,7,13,11,0,2,4,3,
16,32,16,12,13,8,18,20,1,15,0,22,18,4,11,2,18,20,6,12,0,22,18,7,12,6,18,20,6,7,2,18,20,4,5,2,22,16,2,12,8,18,16,13,15,0,26,18,3,15,10,18,16,6,11,8,18,18,9,11,0,22,18,0,4,0,28,18,1,9,2,18,20,2,5,6,18,16,8,9,10,18,20,15,-1,4,18,30,1,10,10,18,12,2,13,8,18,18,4,7,10,18,18,3,8,6,18,16,2,7,4,22,14,8,14,0,-1,18,9,12,0,18,22,4,9,6,18,20,8,15,0,22,18,1,11,12,18,20,7,8,8,18,18,8,10,6,22,12,0,7,10,18,18,3,4,6,22,12,7,-1,12,18,22,2,4,7,14,3,8,9,1,10,13,5,12,15,11,6,0,
16,34,16,0,12,8,30,28,3,15,10,30,24,7,14,12,30,28,0,-1,10,30,30,5,13,10,30,28,7,-1,10,30,28,0,1,0,36,30,8,10,4,32,26,1,6,8,32,22,7,8,10,30,28,1,13,8,30,30,8,13,2,30,30,5,11,2,30,30,1,5,12,30,28,7,12,4,30,28,2,9,2,30,32,2,7,12,30,30,3,9,6,30,26,9,13,2,30,30,7,11,12,30,30,13,14,2,32,28,7,9,2,30,30,6,14,12,30,22,3,14,8,30,24,14,-1,0,30,38,11,12,2,32,28,6,10,12,30,20,3,8,8,30,24,3,5,8,32,22,1,7,2,32,28,0,8,6,30,30,2,15,4,34,26,12,14,4,30,28,4,9,0,-1,30,10,5,3,6,15,4,7,9,14,1,12,2,11,0,8,13,
16,34,16,4,12,16,134,118,9,14,2,134,132,11,15,34,134,120,10,15,34,134,134,12,15,16,134,118,4,5,16,134,138,9,15,2,134,132,4,10,18,134,134,1,14,10,134,124,5,7,40,134,124,2,5,32,-1,102,6,9,28,134,136,5,12,34,134,122,3,5,38,134,112,1,5,22,134,128,6,15,32,134,134,7,9,20,134,122,7,-1,28,134,140,4,7,16,134,120,5,15,26,134,138,6,11,14,154,120,3,13,34,150,100,1,6,10,134,144,7,10,14,136,120,1,13,10,134,124,11,-1,28,134,140,13,-1,22,134,148,5,14,18,134,138,8,14,6,134,-1,9,11,32,134,122,1,10,10,134,126,0,8,12,-1,122,4,13,0,134,134,9,-1,18,134,150,11,8,7,15,2,9,6,0,14,5,3,10,12,13,4,1,
6,6,6,1,3,34,-1,44,4,5,22,96,56,0,2,22,96,56,1,4,26,78,70,1,2,16,78,80,0,5,20,78,76,3,5,2,1,0,4,
6,7,6,0,2,28,-1,60,1,4,32,88,68,4,5,38,100,50,3,5,40,88,60,1,3,22,100,66,4,-1,8,88,-1,0,5,36,88,-1,4,1,3,5,2,0,
8,8,8,0,3,4,14,10,2,5,2,14,12,1,5,4,14,10,4,6,0,14,-1,0,2,4,14,10,2,6,4,-1,10,1,3,2,14,12,4,7,2,-1,12,4,5,7,0,2,3,1,6,
8,9,8,3,7,28,88,94,0,1,34,88,88,0,3,40,122,48,6,-1,10,88,-1,5,6,34,-1,54,1,2,10,-1,78,4,7,4,122,84,5,7,14,88,-1,1,4,16,88,106,3,5,7,4,1,0,2,6,
10,10,10,5,7,18,108,-1,6,9,22,108,-1,4,-1,18,108,-1,1,9,24,-1,84,0,2,12,-1,96,7,9,4,108,-1,3,6,24,-1,84,4,7,40,-1,68,2,4,6,108,-1,5,8,8,-1,100,5,6,8,0,3,1,7,4,9,2,
10,10,10,4,8,4,12,8,1,3,0,12,-1,7,9,2,12,10,0,5,0,-1,12,4,9,0,12,12,6,8,4,12,8,1,4,2,-1,10,2,3,4,-1,8,0,2,2,12,-1,6,7,2,12,10,6,2,8,3,4,5,1,9,7,0,
9,12,9,2,3,28,138,114,5,7,24,156,114,5,6,8,138,134,0,2,20,-1,118,5,-1,0,138,142,1,4,32,-1,106,6,8,36,142,102,2,5,18,138,140,3,-1,26,142,112,4,8,40,138,-1,2,7,40,138,116,2,8,30,138,112,4,0,8,1,3,5,2,6,7,
10,12,10,8,-1,2,12,12,6,8,2,12,12,3,-1,2,12,12,4,7,2,-1,10,5,9,4,14,8,2,7,2,12,16,5,7,4,12,14,1,8,4,-1,8,2,5,0,18,12,3,5,0,14,12,0,9,2,12,12,0,6,2,14,10,9,5,7,0,6,1,8,4,2,3,
12,12,12,2,9,34,-1,160,8,9,8,194,-1,10,-1,24,194,-1,5,11,38,-1,156,3,4,14,194,-1,1,7,38,-1,156,7,10,16,194,-1,0,8,16,194,-1,10,11,36,194,-1,8,10,28,-1,166,4,6,38,-1,156,0,3,18,-1,176,9,1,5,2,7,6,4,3,11,0,10,8,
12,13,12,1,2,40,164,146,2,10,38,164,138,0,3,0,164,186,1,4,10,186,154,8,11,32,164,-1,9,10,40,176,124,3,6,26,176,138,2,8,34,-1,130,0,4,0,164,186,0,7,22,-1,142,3,9,22,164,154,5,11,32,-1,132,2,6,18,164,158,3,5,8,1,2,6,11,7,9,4,10,0,
12,13,12,3,11,2,-1,16,2,9,0,18,22,7,10,4,18,-1,1,11,0,18,-1,0,9,2,18,20,1,5,2,-1,16,2,-1,2,18,20,3,6,0,18,22,9,10,2,-1,16,0,6,4,22,14,2,8,4,-1,14,4,7,4,-1,14,3,-1,4,18,18,7,1,8,5,9,11,0,4,10,2,6,3,
10,13,10,5,7,2,18,18,2,5,2,20,16,0,9,0,18,-1,1,4,4,18,16,1,3,4,20,14,4,5,4,18,18,0,1,4,-1,14,4,7,2,20,16,1,8,2,-1,16,6,9,4,-1,14,3,4,2,18,18,3,-1,2,18,-1,2,3,4,18,16,0,6,5,2,9,1,4,8,3,7,
10,13,10,6,8,14,92,78,2,3,6,92,86,4,8,0,92,92,4,5,32,-1,60,0,9,32,-1,60,1,7,8,92,84,2,6,24,92,68,1,4,2,92,90,6,9,16,92,-1,3,4,22,92,88,1,2,16,92,80,3,7,2,92,90,1,8,2,92,90,0,3,5,4,7,9,1,2,8,6,
13,13,13,7,8,32,-1,146,5,6,8,178,-1,3,10,16,-1,162,1,4,2,178,-1,8,9,0,178,-1,6,7,40,178,-1,1,10,20,178,-1,6,11,26,-1,152,1,12,26,-1,152,5,-1,36,-1,142,3,6,2,178,-1,2,4,40,-1,138,0,9,2,-1,176,11,9,4,3,5,6,8,7,1,0,12,10,2,
9,13,9,1,8,8,22,18,0,2,0,22,24,6,8,6,24,16,3,4,12,22,14,3,8,6,22,18,1,2,0,24,22,0,5,2,22,24,3,6,2,22,22,5,6,0,22,26,4,5,8,26,14,0,1,2,22,22,3,7,0,-1,22,0,-1,8,-1,14,3,2,4,0,6,5,8,1,7,
10,14,10,4,6,12,-1,30,7,9,8,42,36,3,8,10,42,34,1,2,6,42,36,5,7,10,42,34,8,9,10,44,32,0,3,6,-1,36,3,9,8,42,42,1,7,10,42,40,1,4,4,42,38,1,3,4,42,46,3,5,2,44,40,3,7,6,44,36,2,4,2,42,40,3,9,1,7,4,5,0,6,8,2,
11,14,8,1,10,10,26,22,4,7,8,26,24,5,8,12,26,28,3,7,4,26,36,0,9,8,-1,18,1,7,12,32,14,3,4,12,26,28,8,10,0,32,26,3,5,0,40,26,7,-1,4,26,-1,1,9,8,26,-1,4,6,6,26,26,2,8,6,26,-1,6,8,6,32,20,0,5,10,7,3,1,6,9,
12,14,12,0,5,12,-1,54,2,6,8,-1,58,0,4,10,66,56,0,1,0,-1,66,0,-1,4,66,68,2,7,6,66,-1,8,-1,10,66,62,8,9,12,66,54,3,4,12,66,54,0,8,8,66,58,7,10,10,-1,56,3,7,6,-1,60,7,11,8,-1,58,3,9,2,66,64,2,8,4,7,10,0,11,6,1,9,5,3,
12,14,12,4,6,6,226,196,8,11,14,-1,188,3,7,38,202,198,7,9,30,-1,172,1,6,30,202,196,0,1,32,224,170,1,4,22,202,202,6,10,40,-1,162,3,5,40,236,162,0,4,32,202,192,1,5,12,202,224,4,11,8,202,-1,1,7,24,202,212,2,6,40,-1,162,1,6,8,3,7,10,2,9,0,11,4,5,
12,14,12,7,9,12,56,64,6,10,12,-1,44,2,7,8,56,68,2,9,4,56,56,1,3,4,56,-1,5,9,12,-1,44,0,1,2,-1,54,10,11,6,58,50,4,10,2,58,54,4,11,10,56,48,9,10,4,56,56,3,11,12,56,48,7,8,12,-1,44,2,3,10,60,46,11,8,1,9,6,5,0,10,4,3,2,7,
14,14,14,4,12,18,-1,186,4,11,24,234,180,6,9,18,-1,186,4,-1,24,204,210,5,8,38,-1,166,4,13,34,240,170,0,13,32,204,-1,3,-1,28,204,212,2,10,24,-1,180,11,-1,30,204,204,10,13,4,204,236,3,7,28,-1,176,3,10,32,204,208,0,1,20,-1,184,9,0,6,12,8,4,10,5,7,13,1,3,2,11,
12,14,12,7,9,4,20,26,8,11,4,20,16,4,6,2,-1,18,0,10,0,20,20,2,10,4,-1,16,7,10,4,20,16,1,6,4,20,26,0,11,4,20,16,1,8,4,20,16,1,5,4,20,16,3,9,2,-1,18,0,8,2,20,20,5,7,4,20,16,6,9,2,20,28,7,4,3,2,1,8,5,10,6,9,0,11,
14,14,12,8,12,2,-1,10,0,11,0,12,-1,4,5,4,-1,8,4,7,0,-1,12,10,13,2,12,-1,0,10,2,-1,10,11,12,0,12,-1,1,-1,0,12,18,1,9,2,12,-1,5,11,2,12,16,2,13,4,-1,8,1,11,0,18,12,5,-1,4,12,14,3,4,0,-1,12,5,12,8,0,4,13,7,10,3,1,11,2,
12,14,12,5,10,2,12,10,0,2,0,12,14,1,7,2,12,10,3,6,4,12,14,0,5,0,12,12,3,4,0,18,12,6,8,4,-1,8,2,11,2,12,12,5,11,0,14,12,1,3,0,12,-1,0,1,2,12,10,2,9,4,-1,8,4,6,2,12,16,7,10,2,12,10,2,8,7,5,4,10,6,1,9,3,11,0,
10,15,10,5,8,30,118,120,5,7,40,118,118,2,-1,6,118,-1,1,9,24,118,94,1,5,22,118,96,1,8,24,118,126,6,9,38,118,80,4,8,24,-1,94,2,3,2,118,116,0,8,36,118,116,2,5,36,118,82,0,7,32,152,86,1,3,18,118,106,3,6,2,118,116,3,7,34,118,118,9,5,2,6,4,3,8,0,7,1,
11,15,11,0,7,0,24,18,2,5,0,18,24,3,4,4,22,14,7,-1,4,-1,14,2,8,4,-1,14,5,9,2,22,16,5,6,4,18,18,0,6,2,22,16,5,7,4,18,20,1,7,2,-1,16,0,10,0,24,18,2,10,4,18,20,0,9,4,18,18,0,4,4,18,18,3,9,4,18,18,10,5,7,8,1,2,9,6,0,4,3,
14,15,14,2,5,2,-1,32,11,12,2,44,32,4,6,6,-1,28,2,3,0,34,-1,4,8,2,34,40,0,11,6,34,38,4,12,0,34,44,7,13,8,-1,26,0,10,8,44,26,4,9,8,34,34,5,13,2,34,-1,1,11,2,34,-1,8,9,2,42,32,1,3,6,-1,28,8,10,12,34,32,7,2,3,8,12,9,1,5,4,10,6,11,13,0,
9,15,8,0,-1,0,92,98,2,-1,18,92,80,1,4,40,92,132,1,6,30,92,120,6,7,36,110,56,0,6,16,92,94,0,2,20,92,80,3,5,16,92,82,4,8,28,-1,64,5,6,20,92,90,4,5,12,92,160,1,5,30,92,120,0,7,38,92,72,2,3,24,98,68,0,5,4,98,88,3,0,6,8,5,4,2,7,
10,15,10,5,6,4,10,6,3,5,0,10,10,1,3,2,10,10,8,9,2,-1,8,6,8,4,10,-1,0,3,0,10,10,1,4,2,10,8,4,5,2,10,8,2,7,2,10,8,3,-1,0,10,-1,3,4,2,10,8,0,7,2,10,8,2,5,0,10,10,1,6,4,10,6,5,7,4,10,8,9,8,4,0,5,3,2,7,1,6,
12,15,12,4,9,4,28,-1,0,11,8,32,20,8,9,6,-1,22,4,10,6,-1,22,10,11,8,28,26,2,5,2,-1,26,6,11,8,28,24,2,-1,6,28,-1,1,2,8,28,24,2,7,0,28,32,1,6,0,28,32,2,10,6,28,28,0,3,6,28,26,1,3,2,32,26,6,7,4,32,24,8,10,1,0,3,2,5,11,9,4,7,6,
9,15,9,2,3,16,86,90,4,6,20,86,76,0,7,12,86,88,1,5,16,86,74,5,7,20,90,66,2,6,8,86,88,3,4,24,96,62,6,-1,26,-1,60,7,8,16,86,80,1,7,8,86,82,0,3,10,86,86,0,8,14,96,72,6,7,38,86,88,6,8,26,86,78,1,2,2,96,84,0,4,6,3,5,8,7,2,1,
12,15,12,1,5,8,-1,36,1,8,6,44,46,6,9,0,-1,44,6,10,8,44,46,8,10,0,50,44,5,11,8,44,-1,3,8,0,44,50,10,-1,10,44,-1,0,3,10,-1,34,4,10,4,50,40,1,3,2,44,48,4,6,6,44,44,1,6,2,44,48,7,10,10,-1,34,2,11,12,-1,32,8,5,9,2,11,3,1,10,7,6,4,0,
12,15,12,1,6,0,14,14,1,4,0,14,14,1,2,2,14,14,2,4,0,14,14,3,6,2,14,-1,8,11,4,14,-1,3,10,4,-1,10,0,7,2,-1,12,0,-1,2,14,-1,9,11,4,-1,10,6,7,0,14,14,8,10,2,-1,12,5,10,2,-1,12,2,7,0,14,14,4,7,0,14,14,9,0,1,10,7,11,3,6,4,8,5,2,
15,15,15,10,12,8,-1,230,8,12,14,238,-1,6,12,14,-1,224,4,8,40,-1,198,7,14,16,-1,222,1,11,32,-1,206,6,14,28,238,-1,2,5,4,-1,234,14,-1,38,-1,200,2,3,10,-1,228,12,13,38,-1,200,2,14,10,-1,228,1,4,22,238,-1,0,9,28,-1,210,0,5,22,238,-1,6,14,10,5,9,12,3,4,1,11,7,2,8,0,13,
9,15,9,4,5,14,122,118,1,3,18,122,112,6,7,30,122,116,1,8,34,122,104,2,5,40,122,98,1,6,24,130,98,3,4,30,130,92,0,7,20,122,112,2,6,32,122,98,7,8,8,122,122,2,8,26,130,96,0,5,2,132,120,7,-1,40,-1,82,6,8,24,122,114,4,7,30,122,100,8,5,0,4,2,3,6,1,7,
11,15,11,3,9,8,44,36,3,6,2,44,42,0,2,12,44,38,0,6,2,44,42,7,9,10,44,36,5,7,6,44,40,1,10,4,44,40,5,-1,12,44,36,0,1,4,44,40,8,-1,10,-1,34,2,9,10,44,34,2,10,6,44,38,10,-1,2,44,46,4,7,8,-1,36,5,6,8,46,36,2,7,3,10,5,8,6,9,0,1,4,
13,15,13,5,6,4,20,16,0,4,4,20,-1,9,-1,2,20,18,10,-1,4,20,16,2,10,4,-1,16,1,3,4,20,16,8,12,4,20,16,3,5,4,20,16,5,7,2,20,18,1,9,0,20,20,5,8,0,20,20,0,6,2,-1,18,7,10,0,20,20,6,12,0,20,20,4,11,2,-1,18,7,0,8,6,5,1,11,12,3,10,9,2,4,
14,15,14,0,4,2,14,12,3,9,4,-1,10,2,12,4,14,10,0,10,2,14,12,2,5,0,14,14,5,11,0,-1,14,8,13,4,-1,10,1,7,0,-1,14,0,8,2,14,14,4,12,2,14,12,6,10,0,14,14,2,8,4,14,12,5,6,2,14,12,3,5,2,14,-1,1,12,2,14,-1,5,9,10,11,1,6,0,8,7,12,13,2,3,4,
11,16,11,2,9,4,32,32,6,10,6,-1,26,1,8,8,32,32,4,8,4,36,28,2,4,12,32,34,0,3,10,36,22,1,7,2,36,30,2,3,8,32,28,0,7,6,32,34,7,8,6,32,30,2,-1,4,-1,28,4,5,4,32,32,1,2,6,32,34,0,1,4,32,32,5,9,6,36,26,8,10,0,32,-1,8,4,10,2,5,9,7,3,1,6,0,
12,16,12,1,5,22,168,124,3,9,30,146,150,9,10,36,-1,110,5,9,36,146,148,2,8,18,146,146,4,5,30,146,138,1,11,10,146,158,3,8,12,146,152,4,11,14,146,150,3,11,16,164,130,2,9,16,146,164,6,8,26,-1,120,0,7,36,-1,110,9,-1,16,146,-1,7,8,32,146,-1,2,4,10,164,136,10,6,3,5,9,1,2,11,0,4,7,8,
12,16,12,9,10,14,138,106,3,6,18,120,124,6,8,20,120,104,1,4,34,130,86,2,5,6,-1,114,6,7,24,124,96,0,8,20,124,100,4,8,16,120,126,7,9,28,120,110,0,7,28,120,96,6,10,28,120,110,0,5,4,120,-1,3,11,22,130,98,4,11,28,120,102,8,10,8,120,130,1,3,38,120,92,8,3,10,4,9,0,1,6,7,5,2,11,
14,16,14,4,9,6,46,58,4,11,8,64,38,0,-1,10,46,42,7,9,6,-1,40,1,5,10,-1,36,0,6,2,52,44,6,12,6,46,46,11,12,10,46,54,0,9,8,46,56,0,5,6,46,-1,3,12,12,52,34,8,-1,4,46,48,3,13,0,-1,46,3,8,0,52,46,2,7,2,46,-1,2,10,8,-1,38,0,7,11,10,12,8,3,1,6,4,13,5,9,2,
14,16,14,7,9,6,150,160,1,4,26,150,124,2,10,34,150,116,1,10,30,150,132,0,11,10,150,156,10,12,12,150,138,11,13,22,166,128,5,12,2,150,148,4,5,22,150,128,1,8,16,-1,134,0,9,4,166,146,2,7,2,166,148,1,2,16,150,134,2,6,32,-1,118,2,13,28,150,138,3,12,18,-1,132,4,0,8,9,12,3,13,7,2,10,11,1,5,6,
16,16,16,3,14,8,-1,54,9,13,2,62,-1,0,13,12,62,50,4,12,6,62,-1,5,7,8,-1,54,4,13,8,-1,54,2,10,8,-1,54,0,14,2,62,60,3,5,2,62,-1,6,11,4,62,-1,9,15,6,-1,56,1,6,4,-1,58,10,12,8,-1,54,8,10,0,-1,62,13,14,10,62,52,11,13,0,-1,62,6,4,10,5,0,15,3,11,12,14,1,2,9,7,13,8,
12,16,12,0,3,0,16,14,7,10,2,14,14,3,11,4,14,14,7,-1,2,14,14,8,10,0,14,14,8,11,4,16,10,2,5,4,-1,10,9,10,0,14,14,1,7,4,-1,10,4,11,2,16,12,0,10,4,14,12,6,11,0,-1,14,0,4,4,14,12,3,-1,0,14,16,8,9,0,14,14,5,10,0,14,-1,1,6,8,2,4,10,7,11,9,3,0,5,
14,16,14,7,10,0,-1,16,0,12,0,16,20,2,-1,0,16,-1,1,3,2,18,14,7,12,0,-1,16,0,9,4,16,16,2,12,2,-1,14,12,13,0,16,20,1,7,4,16,14,4,12,4,-1,12,6,9,4,-1,12,0,8,4,-1,12,9,13,0,20,16,7,11,0,-1,16,5,9,0,-1,16,3,7,0,16,18,13,1,3,6,4,0,10,8,5,11,7,12,2,9,
15,16,15,0,13,0,-1,24,10,14,0,-1,24,10,-1,4,-1,20,8,11,4,26,20,0,8,4,24,22,3,11,0,24,-1,9,10,4,-1,20,5,8,2,24,-1,2,14,2,24,-1,4,9,0,-1,24,1,3,4,-1,20,6,9,2,-1,22,0,11,2,24,24,2,12,2,-1,22,0,9,4,24,-1,5,7,4,-1,20,0,3,8,4,1,5,12,14,9,6,11,7,10,13,2,
16,16,16,2,8,10,64,-1,3,11,2,66,62,14,15,6,64,-1,0,9,2,-1,62,4,6,10,-1,54,1,13,6,-1,58,5,15,6,-1,58,0,15,2,64,-1,4,10,4,-1,60,11,12,4,64,62,4,14,6,-1,58,0,2,12,-1,52,8,13,10,-1,54,3,12,0,64,66,0,12,4,-1,60,7,13,2,-1,62,9,3,13,6,7,14,11,15,1,12,10,8,4,5,2,0,
12,16,12,2,3,4,40,34,8,11,8,38,30,2,8,10,38,28,6,7,12,40,26,0,5,0,44,38,5,-1,6,38,38,2,9,0,38,38,1,4,2,44,36,10,11,10,38,28,4,-1,0,38,44,1,10,12,38,28,9,10,12,38,26,7,10,12,38,28,0,6,12,38,32,6,11,12,38,28,1,3,6,38,34,9,1,8,7,0,3,5,4,10,6,11,2,
12,16,12,3,11,2,10,8,2,10,4,10,8,0,3,0,10,10,5,6,2,-1,8,1,2,2,-1,8,2,9,0,-1,10,2,3,2,10,8,4,8,2,-1,8,2,5,0,10,10,0,10,0,12,10,0,11,2,10,8,2,-1,0,10,-1,5,11,4,10,6,4,11,4,10,-1,7,11,2,10,8,3,7,0,10,10,2,3,6,4,1,7,0,9,8,10,11,5,
14,16,14,2,13,28,214,-1,3,7,36,218,178,10,12,26,218,188,0,7,0,232,214,10,11,16,218,198,5,6,14,218,200,8,10,16,-1,198,1,5,34,-1,180,0,5,22,214,210,4,6,28,214,190,4,11,38,214,180,2,4,28,-1,186,3,10,12,214,210,3,12,34,214,184,9,13,40,-1,174,5,7,4,218,210,10,1,11,2,12,4,5,0,3,7,6,13,8,9,
15,16,12,0,-1,0,52,-1,1,7,12,52,-1,13,14,0,-1,52,8,12,2,52,62,0,4,2,-1,50,9,11,12,-1,40,11,13,6,52,-1,10,-1,10,52,-1,1,12,2,64,50,1,8,12,52,52,2,5,6,-1,46,0,6,10,-1,42,1,11,10,52,-1,0,8,8,-1,44,3,6,10,52,-1,2,7,12,-1,40,6,9,0,1,4,8,13,7,14,11,12,5,
16,16,16,5,6,0,20,-1,11,13,0,20,20,1,12,2,-1,18,6,14,2,-1,18,8,11,2,20,18,6,12,0,20,-1,8,9,0,-1,20,5,8,4,-1,16,3,10,2,-1,18,7,15,0,-1,20,1,15,4,20,-1,0,10,4,-1,16,2,11,2,-1,18,8,10,0,20,20,4,10,2,20,18,4,13,4,20,16,7,2,1,6,11,8,13,0,3,5,4,9,15,10,14,12,
15,16,14,0,11,0,46,40,3,11,2,46,38,8,-1,12,40,-1,1,7,10,40,-1,1,10,4,40,42,2,6,0,-1,40,7,9,2,-1,38,1,6,12,46,28,3,14,2,40,44,0,4,8,40,38,4,12,6,-1,34,4,13,8,40,38,5,11,8,-1,32,6,8,10,46,30,10,14,0,46,40,8,13,8,40,38,0,2,1,5,4,6,3,10,14,8,7,11,9,12,
15,16,15,4,9,4,52,52,7,13,10,-1,42,3,6,10,52,64,4,7,2,-1,50,10,-1,10,-1,42,5,11,2,-1,50,6,14,4,52,70,2,9,4,-1,48,3,14,8,52,66,1,14,10,56,42,3,8,12,-1,40,4,14,6,52,50,1,9,4,52,52,0,6,2,-1,50,5,12,0,52,-1,7,12,0,-1,52,11,7,9,10,13,4,12,0,2,1,6,5,8,3,14,
12,17,12,0,4,6,42,44,5,7,4,-1,38,3,10,6,42,44,8,11,10,42,36,4,9,8,42,42,11,-1,10,42,48,10,11,8,42,42,0,2,8,-1,34,1,4,6,-1,36,6,10,12,-1,30,0,8,0,42,50,3,-1,12,42,46,3,8,0,42,46,7,9,0,50,42,7,8,6,50,36,3,4,8,42,44,3,11,6,46,36,2,7,1,0,6,10,9,4,3,5,11,8,
13,17,13,2,-1,8,-1,30,4,6,4,44,34,3,5,0,-1,38,3,10,8,38,30,1,2,2,38,36,6,7,10,38,34,4,7,8,38,38,1,10,6,38,32,0,3,10,38,32,0,4,2,38,42,1,12,2,-1,36,7,8,0,38,42,0,7,2,42,36,8,11,6,42,32,2,3,0,38,38,3,9,8,-1,30,2,11,2,38,40,6,0,4,1,7,11,8,3,2,12,10,5,9,
14,17,14,5,6,2,14,12,0,13,2,14,16,2,13,4,14,14,8,13,4,-1,10,3,7,2,20,12,6,9,0,14,14,1,11,0,14,20,4,7,2,14,18,11,-1,4,14,-1,0,11,2,-1,12,5,12,4,14,10,3,12,4,14,16,9,12,2,14,12,0,10,0,-1,14,0,2,2,18,12,1,4,0,20,14,11,12,2,14,18,10,3,1,0,5,13,8,9,12,7,4,6,2,11,
14,17,14,5,7,8,54,54,2,12,12,54,52,7,10,8,54,52,2,7,2,60,52,2,9,6,54,54,4,-1,8,54,-1,0,4,2,54,-1,12,13,10,64,44,5,11,4,-1,50,5,6,2,-1,52,0,13,4,-1,50,8,9,10,-1,44,5,10,8,60,46,5,9,2,54,58,2,3,10,54,54,1,4,12,-1,42,3,13,2,64,52,3,10,2,1,7,8,11,9,13,6,0,4,12,5,
14,17,14,9,10,0,18,14,4,7,2,14,12,0,6,4,-1,10,3,11,2,-1,12,5,12,4,-1,10,3,8,2,14,12,2,-1,0,14,-1,3,7,0,14,14,4,13,2,14,12,2,8,0,14,14,1,2,0,-1,14,6,7,0,14,16,7,9,2,14,16,6,10,2,14,16,6,13,2,14,14,2,13,2,14,12,12,13,2,14,-1,4,2,6,8,1,13,5,0,9,7,3,12,10,11,
15,17,12,12,14,8,-1,50,9,-1,2,58,66,3,10,10,-1,48,6,9,10,58,56,4,6,6,58,60,1,11,10,-1,48,2,14,10,66,48,9,13,0,68,58,2,6,10,58,58,13,-1,8,58,60,2,4,2,58,64,0,6,8,-1,50,1,12,2,-1,56,1,7,6,-1,52,9,14,0,58,66,10,12,8,58,-1,8,14,4,-1,54,13,10,9,1,0,3,8,2,6,7,14,11,
15,17,13,8,12,0,16,-1,4,6,0,-1,16,2,8,0,-1,16,7,14,0,16,16,8,9,2,16,18,3,9,4,16,12,5,7,2,16,18,1,11,4,16,-1,7,13,4,-1,12,5,8,0,16,20,9,11,2,16,14,11,14,2,16,14,8,10,0,-1,16,0,1,0,-1,16,3,7,4,16,12,8,-1,4,-1,12,4,12,2,-1,14,8,14,3,10,1,2,9,13,0,7,12,6,11,
16,17,16,1,6,2,62,54,2,11,2,64,54,12,15,4,62,52,9,11,2,56,62,0,2,8,56,-1,3,6,12,56,50,9,15,10,56,54,8,14,10,62,46,4,10,12,-1,44,0,7,6,-1,50,3,15,0,56,62,2,12,2,56,62,8,10,0,56,-1,3,5,10,-1,46,8,12,8,56,54,9,13,10,-1,46,1,14,2,56,60,4,0,12,15,6,2,7,13,14,11,10,1,3,5,8,9,
16,17,16,7,8,18,-1,226,1,3,36,244,214,7,12,34,-1,210,2,15,16,-1,228,3,5,2,250,242,13,15,8,-1,236,5,6,32,250,212,8,9,30,244,-1,1,6,4,244,246,4,11,34,-1,210,7,10,10,-1,234,5,-1,38,244,-1,9,14,30,-1,214,6,11,40,244,-1,0,5,26,-1,218,0,8,4,244,-1,1,15,34,-1,210,0,14,6,5,10,8,13,4,9,7,15,2,3,11,1,12,
13,17,13,1,12,32,-1,124,3,4,26,188,130,2,-1,28,170,128,8,9,16,156,148,0,5,22,156,180,0,9,14,164,142,2,5,36,156,166,5,7,18,-1,138,4,10,8,156,180,9,12,18,156,170,8,11,2,-1,154,0,8,6,156,158,6,10,36,188,120,6,9,32,156,156,2,9,2,156,168,9,-1,40,156,130,3,12,36,156,152,9,11,1,6,7,10,4,12,8,0,5,3,2,
15,17,15,0,8,2,14,18,10,13,2,14,-1,8,11,0,20,14,1,6,0,-1,14,5,-1,0,-1,14,7,14,0,-1,14,8,-1,2,14,18,0,1,0,20,14,11,13,2,-1,12,1,3,4,-1,10,2,11,0,14,-1,10,12,4,-1,10,4,14,0,-1,14,11,14,2,-1,12,1,11,4,14,16,11,-1,4,14,16,2,9,2,-1,12,9,4,3,8,1,5,2,10,6,7,11,12,14,13,0,
15,17,15,4,6,4,26,24,4,9,0,26,-1,0,5,4,28,22,8,-1,4,-1,22,12,14,4,-1,22,0,12,4,26,24,1,9,2,-1,24,3,13,4,26,24,2,13,4,26,28,2,12,4,26,28,4,8,0,26,-1,11,12,2,-1,24,4,7,4,28,22,3,12,0,28,26,2,10,4,-1,22,6,13,2,28,24,5,7,0,26,28,6,5,1,10,9,0,11,8,7,4,13,14,12,3,2,
16,17,16,10,12,6,-1,34,1,14,2,48,38,5,15,2,40,38,1,15,2,40,38,5,7,2,-1,38,5,6,0,-1,40,8,9,6,-1,34,5,11,0,40,40,1,12,0,40,40,0,13,12,48,28,2,4,10,-1,30,9,-1,8,40,-1,8,10,2,40,-1,12,13,12,40,36,11,12,0,40,40,3,5,0,-1,40,0,14,10,40,38,1,4,9,12,15,6,11,3,5,13,8,0,7,10,14,2,
16,17,16,2,13,0,-1,30,0,8,4,-1,26,10,15,2,-1,28,4,12,2,-1,28,0,1,4,-1,26,0,9,0,34,30,5,10,2,30,-1,7,14,4,-1,26,5,13,4,34,26,13,14,2,30,32,6,11,2,-1,28,6,12,2,-1,28,3,6,2,-1,28,12,13,4,-1,26,0,5,2,30,32,14,-1,2,30,-1,9,14,4,30,30,13,2,0,15,6,7,12,14,8,5,1,11,3,4,10,9,
11,17,11,7,9,6,132,130,1,2,20,132,116,3,4,28,132,108,7,-1,10,-1,122,7,8,26,132,110,2,10,20,132,116,1,8,32,132,112,0,1,38,132,100,6,8,28,136,104,5,6,10,-1,122,1,4,10,136,122,1,6,8,132,128,9,10,12,136,120,2,9,34,132,128,6,10,36,132,124,0,6,28,138,104,2,3,34,136,98,2,9,10,4,6,7,3,0,5,1,8,
13,17,13,2,11,6,-1,40,1,5,2,46,56,0,10,4,46,46,0,8,6,52,40,7,-1,10,-1,36,6,7,0,46,48,4,10,8,46,40,0,4,6,46,44,11,12,0,48,46,5,9,4,48,42,10,11,4,48,42,4,6,4,48,42,5,12,2,46,46,8,11,12,46,40,1,7,10,46,48,1,3,12,-1,34,7,9,4,46,44,5,0,6,7,10,8,1,11,3,12,2,9,4,
14,17,14,1,8,4,50,40,6,-1,12,44,48,0,13,12,-1,32,8,13,2,44,48,8,11,0,44,60,7,11,0,60,44,5,6,6,44,44,7,-1,6,44,54,4,6,0,50,44,10,12,12,-1,32,3,9,6,-1,38,1,5,4,50,40,1,3,12,44,46,1,2,6,58,38,4,13,6,44,44,4,12,0,44,-1,2,3,8,44,50,1,5,6,13,9,10,7,11,0,12,2,4,3,8,
15,17,15,0,5,2,-1,68,4,9,8,-1,62,10,-1,10,-1,60,3,11,10,-1,60,1,5,8,74,62,5,7,2,-1,68,1,13,8,70,66,1,4,10,-1,60,1,11,2,70,74,5,13,4,70,70,4,8,4,-1,66,11,12,12,70,64,1,14,6,-1,64,12,13,4,76,66,2,4,0,-1,70,6,10,6,-1,64,4,10,0,-1,70,13,14,6,9,4,8,3,0,11,5,1,2,10,12,7,
16,17,11,11,13,2,118,180,2,14,36,134,82,3,7,38,118,142,2,5,40,118,94,4,13,2,-1,116,10,-1,10,182,108,6,-1,28,118,154,5,9,34,-1,84,3,14,4,118,176,13,14,0,134,118,7,10,10,182,108,0,6,4,182,114,7,14,20,118,160,0,11,38,118,144,5,13,12,118,122,11,15,22,-1,96,10,12,0,-1,118,5,10,4,15,12,0,6,11,7,9,2,
11,17,11,0,3,6,48,38,1,7,6,44,40,2,8,10,44,38,5,7,2,46,42,0,8,8,48,36,6,7,10,44,40,4,6,6,46,38,1,4,4,46,40,7,8,10,44,38,0,-1,4,-1,40,3,7,8,44,40,4,9,10,44,38,2,9,10,48,34,2,5,10,44,44,0,4,8,44,46,4,10,4,-1,40,5,6,8,44,38,3,9,1,0,10,8,5,2,4,7,6,
11,17,11,6,9,0,28,32,1,8,10,28,22,3,7,8,34,20,6,10,2,36,26,0,2,4,28,30,0,7,4,28,30,3,9,10,28,26,2,6,6,28,26,0,-1,6,-1,22,1,2,10,28,24,0,10,8,28,28,1,6,2,32,26,6,8,4,32,24,2,9,2,32,26,3,5,12,28,22,5,9,4,34,24,4,9,0,-1,28,7,10,1,8,5,9,0,4,2,3,6,
13,17,12,0,4,26,132,122,5,9,24,132,136,2,12,22,132,148,3,-1,10,132,-1,3,10,22,132,126,5,10,22,148,110,3,9,4,132,156,0,3,22,148,110,1,5,18,132,152,4,6,20,148,112,1,2,12,170,120,8,11,26,-1,106,7,12,30,-1,102,1,3,28,132,150,7,11,6,132,-1,5,6,32,132,116,6,12,26,132,144,0,4,12,2,11,6,1,5,7,8,3,10,
13,17,13,1,9,8,142,140,10,-1,8,160,134,4,11,14,142,138,1,3,22,148,120,11,-1,26,142,134,0,5,28,-1,114,1,4,6,152,136,3,10,28,142,120,8,11,4,142,146,11,12,16,142,-1,5,8,12,142,-1,7,12,34,-1,108,1,8,2,150,140,2,11,12,-1,130,9,10,8,148,134,9,11,8,142,142,6,10,22,-1,120,4,5,8,12,0,9,11,2,1,10,3,6,7,
13,17,13,9,12,6,46,46,7,9,8,48,38,4,9,6,52,40,9,11,0,48,46,4,12,6,46,46,7,11,12,46,38,1,7,6,46,42,0,8,4,-1,42,1,10,10,48,36,2,12,0,-1,46,8,11,12,46,44,6,11,6,46,42,1,5,4,-1,42,1,-1,8,-1,38,6,10,8,46,40,8,10,10,46,46,3,6,6,-1,40,5,9,7,11,4,0,8,6,3,10,12,1,2,
14,17,14,5,-1,4,20,22,4,-1,2,20,20,7,12,2,-1,18,0,6,0,22,20,5,7,0,-1,20,1,5,0,26,20,2,3,0,22,20,5,13,2,20,-1,3,6,0,20,22,1,4,2,20,24,4,11,4,22,16,2,5,4,20,18,0,5,2,22,18,0,10,4,-1,16,11,-1,4,20,18,7,8,4,-1,16,9,13,4,-1,16,6,4,0,10,7,1,9,12,3,8,11,13,2,5,
15,17,14,2,7,12,66,60,2,6,8,72,58,0,7,6,66,-1,6,14,8,72,58,7,13,10,-1,56,4,6,8,78,58,0,8,6,-1,60,5,-1,12,66,-1,5,10,6,78,60,1,6,4,66,-1,4,5,12,66,66,7,9,0,78,66,3,11,8,-1,58,1,12,12,-1,54,7,14,10,66,62,11,13,2,66,-1,9,10,12,66,66,14,9,2,4,10,5,12,1,13,11,3,6,8,0,
15,17,15,3,4,0,20,16,7,10,0,16,-1,0,6,4,16,20,4,13,4,16,16,12,-1,2,-1,14,11,14,4,-1,12,0,8,0,-1,16,5,7,0,-1,16,12,13,0,16,-1,6,13,4,16,20,9,13,4,20,12,1,11,4,16,-1,3,9,4,16,16,1,13,0,-1,16,2,13,2,-1,14,0,13,0,16,24,6,10,4,-1,12,12,10,0,3,6,11,8,1,13,14,5,2,9,4,7,
16,17,16,0,8,2,-1,16,2,10,2,-1,16,9,11,2,18,16,5,9,2,-1,16,1,9,0,18,18,6,15,4,18,-1,1,10,0,18,18,12,-1,4,18,-1,8,11,0,18,18,12,14,0,-1,18,10,13,2,-1,16,7,11,0,-1,18,8,10,2,18,16,13,14,2,18,-1,6,9,2,-1,16,4,15,4,-1,14,3,8,2,-1,16,3,9,8,10,6,2,1,12,4,11,15,0,14,7,13,5,
16,17,14,4,6,12,-1,84,2,9,8,100,88,6,13,0,96,-1,12,-1,0,96,-1,5,11,12,96,-1,3,10,12,-1,84,1,2,6,-1,90,13,15,4,-1,92,5,14,12,-1,84,5,12,0,96,-1,1,4,8,96,-1,0,12,8,-1,88,7,9,12,-1,84,8,9,4,96,96,3,8,10,-1,86,9,11,12,-1,84,2,8,8,96,92,5,4,13,9,7,12,14,11,0,15,10,6,8,1,
11,18,11,4,5,12,36,32,5,-1,10,38,26,1,7,6,36,40,8,9,0,40,36,0,3,8,36,34,0,7,2,36,40,2,5,10,36,28,4,8,2,36,38,1,8,4,36,42,2,4,4,38,32,0,10,6,42,30,4,9,2,36,38,1,6,12,-1,24,9,10,10,36,32,3,5,6,36,36,5,9,8,36,34,4,-1,6,36,32,3,7,4,42,32,5,9,3,8,7,1,10,0,2,4,6,
11,18,11,6,8,2,36,36,1,2,12,38,24,4,10,8,36,32,9,10,0,46,36,5,-1,8,-1,28,3,4,6,40,30,1,3,10,36,30,3,7,6,36,34,0,6,4,38,32,7,8,6,38,30,3,8,12,36,36,0,2,8,36,30,4,5,12,36,-1,1,10,10,36,28,7,10,4,36,34,8,9,12,36,34,2,6,4,36,34,2,10,8,36,34,8,10,5,3,2,9,1,7,4,6,0,
12,18,12,1,4,18,98,106,9,10,18,98,86,1,6,4,124,94,4,5,4,98,96,5,-1,14,98,-1,3,8,38,98,-1,2,9,22,98,78,4,9,30,98,92,5,9,10,100,88,2,4,14,100,84,0,9,4,98,118,6,7,16,98,108,5,7,2,122,96,1,2,26,98,98,8,11,26,-1,72,0,3,40,-1,58,5,10,2,104,96,0,7,32,98,90,8,0,9,11,3,1,2,4,5,10,6,7,
13,18,11,1,11,0,14,16,3,4,2,14,14,10,11,0,16,14,0,5,4,-1,10,1,6,2,14,18,7,-1,2,16,12,1,3,2,16,12,4,6,4,14,16,1,2,0,16,14,7,10,4,14,12,1,9,2,-1,12,2,-1,0,14,16,4,8,4,-1,10,11,12,0,14,16,4,12,2,14,14,0,6,0,14,-1,2,12,2,14,14,10,12,2,14,14,5,7,10,9,8,4,0,2,11,1,3,
14,18,14,4,9,0,14,16,1,9,0,16,14,1,13,2,14,14,5,7,0,16,14,10,12,4,14,14,4,6,0,-1,14,8,12,4,-1,10,10,11,0,-1,14,3,12,4,-1,10,0,12,0,16,14,0,2,4,14,10,2,10,4,14,10,9,10,2,14,14,10,13,2,16,12,0,10,0,14,14,4,5,2,14,14,4,10,2,14,14,7,12,0,14,16,6,11,9,12,5,10,8,2,1,13,4,0,7,3,
15,18,13,11,-1,8,-1,44,4,12,8,52,46,4,7,6,-1,46,5,9,10,52,44,2,10,2,52,50,13,14,4,54,48,4,13,2,52,52,3,11,8,-1,44,0,5,4,54,48,9,10,2,52,-1,0,9,4,54,48,7,11,10,52,-1,2,14,4,52,50,1,2,0,52,-1,2,8,0,-1,52,10,12,10,52,42,6,11,8,-1,44,2,12,8,52,44,12,14,3,2,6,8,11,13,10,5,9,4,7,
15,18,14,2,7,22,226,222,0,1,38,-1,188,10,11,4,226,250,3,11,30,244,196,8,12,36,-1,190,5,7,36,226,208,5,6,30,244,196,10,13,32,226,222,9,12,26,310,200,6,11,12,226,232,1,9,28,226,282,12,-1,22,226,288,1,3,32,226,278,7,-1,40,226,270,7,13,8,254,218,2,4,28,244,198,3,4,36,226,208,10,14,30,-1,196,2,1,4,7,5,14,10,0,6,8,13,9,3,11,
15,18,15,6,10,0,8,10,4,5,0,10,8,3,12,2,10,6,4,12,2,8,8,12,13,0,10,8,8,13,0,8,10,9,12,2,-1,6,4,11,4,8,8,8,11,0,8,12,8,-1,0,10,8,5,-1,2,8,8,2,14,0,-1,8,3,6,0,10,8,4,10,2,8,8,3,7,0,-1,8,0,10,4,-1,4,2,11,0,-1,8,1,2,0,-1,8,1,8,14,4,12,7,13,10,6,11,3,5,0,9,2,
16,18,16,7,11,10,56,54,7,15,12,64,44,2,4,6,-1,50,3,13,6,56,-1,5,15,4,56,64,8,11,12,-1,44,6,12,12,60,44,1,13,10,-1,46,10,15,0,56,58,5,9,0,-1,56,0,10,0,68,56,0,5,8,56,60,14,15,6,56,52,12,15,10,56,50,3,10,0,-1,56,11,15,10,56,54,6,15,6,56,54,10,14,4,58,52,1,4,10,13,11,0,7,6,5,2,15,9,12,14,8,3,
16,18,16,8,11,2,16,18,4,8,2,16,-1,0,1,2,18,14,2,5,0,16,18,6,8,4,-1,12,5,9,2,18,14,5,12,2,16,-1,0,8,4,16,14,10,12,2,-1,14,1,11,2,16,18,3,9,2,-1,14,11,14,0,-1,16,6,9,2,16,-1,9,13,4,16,14,1,8,0,16,18,4,15,0,-1,16,7,9,4,-1,12,2,13,0,18,16,9,1,6,7,11,8,3,12,2,15,10,14,0,5,4,13,
11,18,11,0,6,12,-1,26,1,5,10,42,28,5,7,6,38,34,1,10,10,38,32,4,10,2,42,36,8,-1,8,-1,30,2,4,4,38,38,2,9,2,38,40,2,5,10,38,40,5,8,8,38,38,3,9,4,38,38,7,9,4,40,34,5,9,0,38,40,2,8,2,42,36,3,8,0,42,38,9,10,4,38,38,4,9,12,38,36,5,6,6,38,-1,2,10,8,0,6,3,4,7,1,9,5,
11,18,11,4,5,36,-1,62,1,9,26,98,90,4,10,26,98,106,9,10,6,98,124,0,8,16,98,116,1,6,12,116,86,0,10,14,130,84,0,9,40,98,90,6,9,4,98,112,2,8,24,98,112,0,-1,34,98,102,2,7,18,-1,80,2,10,12,98,124,3,9,6,-1,92,2,6,26,98,120,8,10,32,98,100,1,4,10,98,122,8,-1,12,136,86,1,10,0,7,4,9,2,6,5,8,3,
14,18,14,11,-1,2,22,26,1,7,4,22,24,5,7,2,26,20,0,6,2,22,22,8,10,2,-1,20,0,12,2,22,-1,5,11,4,22,20,5,10,4,22,22,1,9,4,-1,18,6,11,2,24,20,5,13,2,22,22,3,4,4,-1,18,7,10,2,22,24,0,3,2,22,26,1,10,0,22,28,3,-1,2,22,26,0,13,4,24,18,2,12,4,-1,18,1,4,10,12,9,11,3,0,13,5,7,2,8,6,
14,18,14,4,10,0,202,-1,2,10,36,-1,166,0,12,26,210,176,4,6,30,-1,172,7,10,30,202,192,7,8,20,202,186,10,-1,12,202,200,1,12,2,202,210,9,11,16,-1,186,0,13,30,-1,172,10,12,20,202,190,0,8,12,206,190,0,3,30,-1,172,5,-1,26,202,186,0,7,4,206,198,5,11,14,202,-1,0,10,14,202,196,1,5,18,212,184,4,6,9,0,5,10,7,1,3,13,12,2,11,8,
14,18,14,5,12,2,14,14,0,1,0,14,16,1,2,4,14,14,2,9,2,14,12,13,-1,4,14,-1,8,12,2,16,12,1,6,2,-1,12,4,11,0,16,14,2,4,0,14,14,4,7,0,14,14,1,11,2,14,14,3,13,2,-1,12,3,7,0,14,-1,0,5,2,16,12,0,10,4,-1,10,0,2,0,16,14,7,9,2,14,12,0,8,4,14,12,0,1,11,3,8,2,13,4,5,6,12,7,10,9,
14,18,13,7,-1,12,-1,32,5,13,12,44,40,3,8,4,44,44,2,13,4,46,40,3,5,10,48,34,1,9,10,46,34,6,10,0,46,44,0,7,8,44,54,7,9,10,44,52,1,6,12,44,34,10,12,4,-1,40,4,5,8,44,40,9,13,2,44,44,4,10,2,46,42,7,13,10,44,52,2,4,4,44,42,0,13,4,44,44,0,8,2,48,42,13,8,9,3,1,2,12,10,7,4,5,0,6,
15,18,15,3,4,0,-1,18,8,11,2,-1,16,9,10,2,18,16,1,11,4,18,18,5,12,4,-1,14,0,6,0,20,18,1,14,0,18,20,11,14,0,18,22,3,7,2,-1,16,8,-1,4,-1,14,6,10,0,18,18,0,13,4,18,16,2,14,4,20,14,5,8,0,-1,18,3,5,0,-1,18,2,6,2,18,18,6,9,2,18,16,1,13,0,20,18,4,7,13,5,9,14,2,11,10,1,12,8,6,0,3,
12,18,12,0,-1,10,26,22,1,9,8,-1,18,5,6,6,26,22,1,7,2,26,-1,5,7,12,26,26,2,10,10,26,24,0,4,4,32,22,4,10,0,28,26,3,10,4,26,24,4,6,4,28,22,5,11,8,26,20,7,11,6,28,20,2,-1,2,26,30,2,8,0,28,26,3,8,0,28,26,2,4,4,26,24,3,7,4,26,24,5,8,4,28,22,9,0,10,4,5,7,1,3,11,6,2,8,
12,18,12,0,6,10,58,40,5,11,12,50,44,3,11,6,50,50,9,11,12,50,46,2,9,12,50,46,2,5,12,50,44,4,6,10,50,48,7,9,6,-1,44,2,3,6,50,48,3,4,12,54,38,1,2,10,-1,40,4,8,6,50,48,11,-1,6,50,-1,10,11,6,-1,44,2,8,4,50,50,0,9,2,50,56,5,8,6,56,44,8,11,12,50,50,0,4,8,3,2,5,10,6,9,11,1,7,
12,18,12,4,9,10,32,22,0,10,4,32,28,1,5,2,32,30,3,8,2,32,30,0,4,2,32,30,5,9,12,32,24,10,11,4,32,28,8,9,8,32,24,0,11,8,32,32,0,2,12,-1,20,0,6,2,38,30,1,11,2,32,30,3,6,10,32,28,5,7,0,-1,32,5,-1,4,32,-1,0,9,12,32,24,8,11,6,32,32,3,5,2,32,30,3,0,1,4,9,8,10,7,11,2,6,5,
14,18,14,10,13,38,150,116,2,12,32,-1,118,6,12,12,150,-1,3,11,18,154,132,9,13,14,-1,136,5,6,20,-1,130,3,4,4,150,150,0,3,14,150,140,0,4,14,154,136,5,8,20,154,130,1,-1,12,150,142,1,7,20,150,140,7,11,2,150,152,5,7,12,154,138,3,13,12,150,142,1,10,20,154,130,11,-1,0,150,154,1,8,22,150,132,9,5,6,10,2,7,12,13,4,11,1,0,8,3,
14,18,13,2,4,0,16,10,0,11,2,10,14,1,10,2,16,8,2,-1,2,-1,8,5,8,0,10,16,2,9,0,16,10,10,13,2,-1,8,6,8,0,-1,10,0,5,0,16,10,4,5,4,10,12,7,11,4,-1,6,0,9,4,10,12,1,2,4,10,12,1,12,4,10,-1,3,11,4,10,12,3,8,4,10,10,8,10,0,10,14,3,10,0,14,10,8,4,10,2,9,13,1,11,7,5,6,0,3,
14,18,14,4,7,0,16,14,0,4,0,14,16,2,12,4,14,10,1,13,4,14,12,0,8,4,14,12,7,9,4,14,12,3,5,4,14,12,5,10,0,14,16,8,9,0,16,14,7,8,2,16,12,0,12,4,14,10,3,13,2,16,12,6,7,0,18,14,0,2,0,14,14,0,10,0,16,14,2,6,4,14,14,5,11,4,-1,10,1,8,2,16,12,12,10,0,13,2,1,3,11,7,8,6,5,9,4,
15,18,15,2,10,2,-1,60,8,14,8,62,60,2,5,4,66,58,7,12,2,-1,60,5,-1,8,-1,54,9,13,8,-1,54,5,14,2,62,64,1,4,8,-1,54,5,13,0,68,62,0,13,6,62,58,12,13,6,64,56,4,11,2,62,-1,3,14,10,-1,52,0,6,10,62,54,11,14,12,62,54,2,11,6,66,56,0,8,0,68,62,6,12,8,64,54,12,4,3,13,2,10,7,14,8,5,9,0,1,6,11,
15,18,15,2,8,8,90,76,7,13,12,84,72,5,14,10,-1,74,2,14,10,84,80,7,8,8,84,76,8,13,4,84,80,9,10,12,-1,72,7,10,12,-1,72,13,14,8,84,82,8,14,12,84,86,0,4,12,-1,72,9,12,6,84,-1,4,11,4,-1,80,4,12,0,-1,84,10,-1,0,-1,84,2,6,2,84,-1,3,6,6,-1,78,1,7,8,-1,76,12,14,4,13,6,1,2,0,9,3,10,8,5,7,11,
15,18,14,5,-1,4,24,26,0,5,0,26,24,0,-1,2,24,28,0,1,2,-1,22,7,12,2,-1,22,10,11,4,-1,20,8,12,4,-1,20,4,10,2,24,22,4,5,2,24,24,6,11,0,-1,24,3,9,0,-1,24,4,13,2,-1,22,1,2,4,-1,20,0,4,0,24,24,3,4,0,24,-1,11,12,2,-1,22,10,14,2,-1,22,0,10,2,24,22,11,0,2,6,12,7,5,4,14,9,8,13,3,10,
16,18,16,11,13,12,64,-1,5,14,12,68,52,4,7,8,64,60,4,13,0,68,64,13,14,2,64,66,9,15,12,-1,52,7,12,10,68,54,0,13,4,70,60,2,11,10,-1,54,1,9,4,64,64,1,8,2,64,-1,0,6,10,64,60,9,12,6,64,62,1,5,6,64,62,3,8,10,-1,54,6,13,0,70,64,11,-1,6,64,-1,1,10,6,-1,58,1,3,12,9,13,5,14,0,15,8,2,6,11,10,7,4,
12,18,12,3,11,2,10,8,5,6,4,10,6,4,9,4,10,6,7,11,2,10,8,5,10,2,10,10,5,7,4,10,10,2,4,2,10,8,1,3,0,10,10,0,1,0,10,10,4,8,2,10,10,5,11,2,10,8,7,9,2,10,8,6,-1,4,10,6,8,9,4,10,8,1,4,4,10,8,0,2,0,10,10,4,-1,2,10,8,8,10,0,12,10,11,4,10,2,9,1,6,5,7,0,3,8,
13,18,13,0,10,2,18,20,3,4,2,24,16,0,9,0,22,18,5,12,0,20,18,4,11,2,24,16,9,10,2,18,20,1,9,0,24,18,4,10,2,18,22,1,8,2,18,22,3,8,4,18,20,4,-1,4,-1,14,4,12,2,18,18,6,8,4,-1,14,0,11,4,18,20,7,10,2,-1,16,4,5,0,18,20,1,11,4,18,20,2,9,4,-1,14,0,7,4,5,6,3,11,12,9,10,2,8,1,
13,18,13,8,-1,8,-1,40,2,11,10,-1,38,4,12,8,48,52,4,5,0,58,48,4,8,2,48,56,0,6,10,48,46,5,8,8,48,50,0,12,0,60,48,6,11,6,48,-1,7,10,12,-1,36,6,9,4,-1,44,0,1,2,48,54,1,5,10,48,50,3,7,6,48,-1,1,6,4,56,44,1,12,10,48,50,1,4,2,48,58,3,6,10,-1,38,3,8,7,10,1,6,12,2,0,4,11,5,9,
13,18,13,9,12,12,64,56,4,6,12,-1,52,2,10,6,64,66,7,9,2,64,66,0,11,8,64,56,3,11,12,64,52,0,7,4,64,60,0,1,10,-1,54,4,7,6,64,-1,9,10,8,64,64,7,12,10,64,54,0,5,12,64,-1,0,12,12,64,58,5,-1,2,-1,62,7,10,6,64,66,8,10,12,-1,52,3,12,10,64,54,2,9,6,72,58,8,11,10,0,3,5,12,2,4,6,7,1,9,
14,18,13,5,11,2,56,60,0,1,10,56,54,10,11,10,56,48,5,6,2,56,60,4,5,4,-1,52,3,10,10,58,46,6,8,0,-1,56,1,7,10,56,48,0,7,12,58,44,6,11,2,56,60,3,13,2,-1,54,9,12,10,-1,46,2,9,6,56,-1,2,6,6,62,50,11,-1,6,-1,50,0,11,10,56,48,1,3,6,58,50,2,11,10,56,52,3,13,10,11,12,4,7,2,0,9,5,1,8,
15,18,15,5,13,2,-1,12,7,11,4,14,14,4,5,0,14,-1,0,4,2,-1,12,1,13,2,14,12,1,8,4,14,12,6,9,2,14,14,12,-1,2,-1,12,10,14,4,-1,10,1,9,4,14,10,10,13,0,14,-1,3,8,0,16,14,6,7,0,16,14,10,12,2,14,-1,2,11,0,-1,14,9,13,2,14,12,3,7,0,14,16,11,13,0,14,18,3,13,12,0,1,5,9,6,4,14,8,7,2,11,10,
12,19,12,4,-1,22,136,156,1,2,16,152,120,7,-1,36,136,142,8,10,36,-1,100,8,9,32,136,-1,4,6,26,138,110,2,9,20,136,132,3,5,26,-1,110,7,9,38,136,114,2,4,36,136,126,0,3,32,136,126,4,7,18,136,120,3,6,16,136,126,4,11,8,-1,128,3,9,22,136,120,4,9,6,142,130,0,7,18,138,118,0,6,28,136,110,1,9,12,136,140,11,2,6,4,7,0,5,8,3,10,1,9,
12,19,12,7,8,2,10,8,0,7,2,12,8,5,9,2,10,10,9,11,2,10,10,10,11,4,12,6,3,4,0,10,10,1,3,0,10,10,6,-1,4,10,10,3,5,2,12,8,6,10,4,10,8,4,7,0,10,10,7,-1,0,10,14,2,3,2,10,10,2,4,4,10,10,0,3,4,10,8,1,8,2,10,8,6,9,4,10,10,3,6,0,12,10,2,9,0,12,10,1,2,6,5,7,11,9,4,10,3,8,0,
13,19,13,0,8,0,28,30,5,-1,4,28,30,1,11,2,34,26,0,5,2,28,32,6,-1,0,32,28,5,12,10,-1,18,0,3,10,28,26,6,10,12,28,20,2,-1,2,28,28,1,3,0,28,34,4,8,0,-1,28,1,2,10,28,24,8,10,8,28,22,3,8,8,28,26,3,9,2,-1,26,7,11,4,28,30,7,-1,6,28,24,0,7,4,30,24,2,10,10,30,18,4,7,10,11,2,5,9,3,8,6,1,12,0,
13,19,13,1,4,2,10,10,6,-1,2,10,14,6,11,0,12,10,1,6,2,12,8,4,8,0,10,10,0,1,0,10,10,6,9,0,-1,10,0,5,2,10,8,4,7,2,-1,8,4,11,4,10,8,1,8,0,10,10,2,-1,0,-1,10,3,12,0,16,10,3,11,2,10,14,0,10,4,10,6,1,5,2,10,8,12,-1,2,10,14,4,10,4,10,6,4,5,4,10,8,2,4,6,3,0,1,10,7,12,11,8,5,9,
13,19,13,2,5,30,134,138,4,7,38,134,114,7,10,6,146,128,7,8,6,134,140,1,6,24,-1,110,5,11,16,146,118,4,9,4,152,130,2,3,38,146,96,8,-1,32,-1,102,9,11,0,134,146,1,7,4,134,-1,3,8,40,134,106,2,7,18,134,138,5,12,8,162,126,10,12,30,134,132,0,10,12,134,134,2,9,20,134,126,8,10,22,134,134,0,5,6,146,128,1,10,5,6,8,4,12,9,0,2,7,3,11,
14,19,14,2,5,30,160,128,9,10,34,184,124,3,7,12,158,166,4,9,36,158,150,6,11,6,184,152,0,13,10,-1,148,8,12,24,-1,134,4,7,30,178,128,6,10,22,158,162,2,3,28,158,132,4,8,24,158,154,1,9,40,158,144,1,5,28,158,132,0,11,2,158,182,0,5,28,158,156,3,8,32,158,164,1,3,24,160,134,1,8,38,158,140,5,7,34,158,164,10,12,1,2,3,8,0,6,4,11,5,9,7,13,
14,19,14,5,10,4,32,30,1,6,2,38,30,2,13,4,44,28,6,10,0,32,34,7,9,10,34,22,4,10,0,-1,32,0,12,8,-1,24,0,7,10,32,30,5,9,8,32,26,6,7,0,32,34,3,5,4,32,30,3,8,2,-1,30,9,-1,4,32,-1,0,5,0,32,40,2,7,10,32,34,5,11,6,-1,26,10,13,6,32,38,3,9,4,32,30,1,7,8,32,30,9,2,3,13,0,11,1,12,7,4,6,10,5,8,
15,19,15,0,12,4,16,14,1,11,4,16,16,7,11,2,-1,14,11,13,2,18,14,4,14,2,16,-1,3,4,0,-1,16,5,6,0,16,18,2,8,4,-1,12,1,5,0,20,16,2,-1,4,16,14,2,9,2,16,16,12,13,2,16,16,2,11,2,16,16,6,-1,4,18,12,9,12,0,18,16,5,9,0,16,18,11,14,0,-1,16,10,12,2,16,16,0,10,4,18,12,9,10,11,1,2,3,4,7,13,8,6,0,5,14,12,
15,19,15,7,9,24,180,172,2,-1,18,196,162,11,13,34,194,146,2,12,14,180,180,7,8,32,180,178,1,4,28,196,152,8,9,6,180,198,12,13,20,180,174,3,7,10,196,170,1,8,26,180,178,5,8,22,-1,158,3,4,38,180,158,0,7,16,-1,164,1,-1,14,180,182,9,12,4,196,176,6,14,38,-1,142,11,14,30,180,-1,7,10,10,-1,170,2,11,14,180,180,12,1,9,7,10,8,2,14,3,13,6,0,11,5,4,
16,19,16,8,12,10,192,180,2,6,36,-1,154,11,12,24,190,168,3,13,6,190,-1,0,10,8,190,190,1,-1,32,190,-1,5,9,14,190,-1,3,15,12,-1,178,2,14,36,190,-1,5,13,40,-1,150,6,7,22,190,178,0,6,0,198,190,1,6,36,190,162,8,14,8,-1,182,7,9,2,190,198,8,11,12,192,178,1,10,36,198,154,4,7,22,-1,168,6,9,14,200,176,8,3,0,12,6,5,15,14,4,7,11,9,13,10,1,2,
16,19,16,9,-1,6,-1,46,11,14,10,52,50,10,-1,10,-1,42,2,6,2,52,-1,7,12,10,52,50,11,12,0,60,52,2,3,8,54,44,3,10,8,52,46,4,7,0,-1,52,1,5,12,52,-1,7,14,0,52,60,0,5,8,-1,44,3,11,4,52,56,6,15,10,-1,42,7,13,2,-1,50,1,10,2,52,52,2,7,2,52,52,8,14,6,-1,46,1,7,2,54,50,11,0,9,8,1,13,14,5,4,2,15,7,12,10,6,3,
14,19,14,5,8,8,42,38,1,2,2,42,42,1,4,10,42,34,1,11,6,-1,36,2,3,4,42,42,3,9,6,42,38,0,2,10,42,34,7,9,0,42,44,5,10,2,42,44,5,12,10,-1,32,6,8,4,42,40,3,7,8,42,38,2,10,8,44,34,5,7,12,42,44,3,8,2,44,40,4,6,12,44,30,7,13,2,-1,40,7,10,2,42,42,0,9,2,44,40,10,7,8,6,1,11,9,3,4,0,5,12,2,13,
15,19,15,1,12,0,62,-1,6,10,8,-1,54,0,8,2,66,60,11,12,6,-1,56,0,5,0,62,64,5,7,10,62,54,5,9,2,76,60,0,13,6,62,58,10,13,8,64,54,12,14,2,76,60,4,6,6,-1,56,1,-1,6,-1,56,3,12,8,-1,54,10,12,10,62,66,9,14,10,62,66,2,6,8,-1,54,5,8,6,62,60,5,13,8,62,58,7,10,6,64,56,3,12,11,6,9,8,1,10,14,7,5,2,13,4,0,
15,19,15,3,14,2,50,46,1,10,12,48,46,6,-1,12,-1,36,0,13,10,48,48,5,7,10,48,52,0,9,6,58,42,1,11,6,48,52,4,9,10,48,48,2,5,8,62,40,3,4,4,48,46,11,14,2,58,46,6,13,2,58,46,4,14,0,50,48,7,11,0,48,58,0,12,6,48,56,2,8,8,48,54,7,10,6,58,42,8,12,4,62,44,1,6,6,58,42,1,4,14,6,11,0,5,12,9,13,2,8,10,7,3,
15,19,15,5,11,40,-1,150,3,12,30,222,160,6,10,26,190,204,3,13,16,190,210,1,10,2,230,188,8,14,26,190,200,3,7,8,190,228,2,11,6,190,-1,2,14,22,-1,168,6,12,22,190,200,7,9,22,-1,168,3,-1,32,190,190,1,12,6,190,224,7,13,22,190,214,0,13,38,226,152,0,14,38,190,188,6,-1,8,190,214,8,-1,6,226,184,4,6,30,-1,160,6,7,0,2,3,11,9,10,5,13,12,1,14,4,8,
15,19,15,9,12,12,-1,38,10,13,0,64,50,8,10,8,50,56,4,7,0,64,50,3,4,0,64,50,5,11,8,-1,42,7,14,4,50,60,3,11,10,50,-1,8,-1,8,-1,42,0,3,8,50,62,1,14,10,64,40,1,8,8,50,56,7,13,10,50,54,10,14,12,50,56,0,2,8,-1,42,0,13,8,50,62,3,13,4,50,60,5,12,4,50,-1,4,6,4,-1,46,6,4,12,9,2,5,0,13,10,8,3,11,14,1,7,
13,19,13,0,9,0,10,-1,0,5,2,10,8,4,11,0,10,10,6,-1,4,-1,6,2,8,2,10,10,5,11,0,10,10,7,8,2,12,8,6,10,4,10,-1,2,12,0,12,10,8,12,0,10,12,1,8,4,10,8,3,10,4,10,10,1,7,0,12,10,0,4,2,10,8,1,2,4,10,8,9,10,2,12,8,2,10,4,10,8,7,9,2,10,10,3,7,0,14,10,10,5,4,0,11,12,8,9,3,2,7,6,1,
13,19,12,5,10,2,18,12,0,12,4,14,14,2,11,4,14,10,2,8,0,14,16,1,8,4,14,12,1,-1,0,14,-1,1,12,0,18,14,3,8,4,-1,10,1,2,2,14,12,6,8,2,14,14,0,2,2,14,16,2,10,2,14,16,4,8,2,14,14,5,6,4,14,14,8,9,2,14,-1,1,11,2,14,12,4,6,2,16,12,7,9,2,-1,12,10,12,4,14,14,1,3,8,2,6,11,4,9,12,10,7,5,
15,19,15,0,9,6,56,46,10,-1,12,52,50,13,14,6,-1,46,5,8,2,52,54,3,-1,8,62,44,0,12,10,56,42,0,1,6,52,52,12,13,0,52,56,0,11,12,52,48,0,2,6,-1,46,5,11,2,60,50,9,10,10,52,46,6,13,6,56,46,1,5,2,52,54,3,5,4,52,58,4,8,2,-1,50,6,8,12,52,44,1,10,0,56,52,7,13,6,-1,46,0,11,14,6,10,8,7,3,5,13,2,1,9,12,4,
15,19,14,6,7,10,-1,44,1,6,10,54,56,6,13,4,54,62,1,5,4,54,50,2,13,0,56,54,2,8,6,54,52,4,14,4,-1,50,2,11,10,54,46,1,11,6,54,48,11,12,6,54,50,2,12,4,54,52,5,12,8,54,52,0,11,12,54,42,9,12,10,-1,44,8,10,6,54,-1,5,8,8,54,46,3,10,12,-1,42,0,13,4,54,50,8,13,2,54,52,8,2,14,0,3,5,10,1,11,6,4,12,9,7,
15,19,15,8,-1,0,-1,20,1,3,2,20,-1,6,12,4,-1,16,5,11,0,20,28,3,6,4,20,22,1,13,4,-1,16,0,6,2,20,22,0,14,2,20,22,3,5,4,20,24,0,3,0,26,20,4,5,2,20,-1,11,14,2,20,26,6,9,4,20,20,6,14,4,20,20,8,11,0,20,-1,10,11,2,-1,18,2,5,2,-1,18,4,7,4,-1,16,9,14,4,24,16,11,3,5,10,13,1,6,14,12,9,0,7,8,2,4,
16,19,16,0,10,4,46,52,8,12,6,46,50,3,7,6,46,50,0,13,8,-1,38,4,7,8,56,38,6,15,12,-1,34,4,12,4,46,52,2,7,12,46,48,11,14,0,-1,46,5,15,6,46,-1,5,9,4,-1,42,2,8,0,60,46,9,10,2,50,44,0,8,2,46,54,1,11,10,-1,36,3,10,8,46,42,11,12,0,-1,46,2,-1,8,46,-1,3,9,2,50,44,12,5,11,10,3,6,7,4,13,1,15,14,0,8,9,2,
16,19,16,0,12,8,64,52,6,14,8,60,-1,0,13,0,-1,60,3,11,6,60,58,0,3,6,60,58,2,6,0,-1,60,0,7,8,-1,52,1,4,6,-1,54,1,8,6,60,-1,1,5,12,60,62,1,14,12,60,58,3,15,6,-1,54,5,10,12,-1,48,5,11,10,64,50,1,-1,12,60,58,5,14,10,70,50,5,-1,8,60,56,8,9,0,-1,60,12,-1,2,60,62,3,2,12,6,1,13,14,5,7,10,8,11,9,15,4,0,
16,19,16,3,11,10,68,68,10,12,2,-1,66,2,12,8,68,60,9,15,8,68,70,1,12,2,68,66,5,12,2,-1,66,4,8,12,-1,56,3,14,12,68,56,0,7,10,-1,58,13,-1,12,68,-1,2,14,4,68,64,4,6,6,-1,62,12,15,2,68,76,4,9,8,-1,60,1,3,2,68,66,2,9,8,68,70,2,13,12,-1,56,3,7,10,68,-1,11,15,2,78,66,2,3,14,10,1,7,8,4,13,9,11,0,5,12,6,15,
12,19,12,0,9,0,8,8,5,7,2,8,10,7,8,2,12,6,1,10,0,10,8,1,9,2,8,8,2,6,2,8,6,0,3,4,8,8,4,6,4,8,8,9,-1,0,8,-1,2,3,2,8,6,0,10,0,10,8,4,10,0,12,8,0,6,0,8,8,5,11,4,-1,4,3,8,2,8,8,3,5,4,8,8,6,10,4,8,8,2,8,2,8,8,3,9,0,8,8,3,10,7,5,9,2,4,0,1,11,8,6,
15,19,15,1,2,20,136,112,5,12,20,-1,112,1,11,18,132,164,7,13,16,132,168,0,6,18,132,-1,4,13,12,184,120,0,5,32,132,104,2,5,24,132,112,1,10,34,132,148,9,10,14,132,170,0,1,32,136,100,10,11,2,182,130,1,14,10,136,122,5,14,14,132,122,7,9,12,184,120,3,4,0,-1,132,6,8,4,-1,128,4,14,40,132,144,4,-1,20,-1,112,4,9,2,1,6,0,14,10,12,13,3,7,5,8,11,
15,19,15,6,10,0,20,18,1,14,2,20,16,11,12,0,20,18,2,6,0,18,20,1,2,0,20,18,12,14,4,18,16,9,11,4,-1,14,2,7,2,18,18,7,11,0,20,18,3,11,4,18,18,1,-1,2,-1,16,6,12,0,18,20,0,8,0,-1,18,3,5,4,22,14,7,10,2,18,18,0,5,4,-1,14,0,4,2,-1,16,5,12,4,18,18,5,13,0,-1,18,7,2,6,0,14,13,8,4,9,5,12,1,11,3,10,
12,20,12,4,9,2,12,10,0,3,2,12,10,0,4,0,12,12,8,-1,0,12,14,3,9,4,12,12,2,7,2,12,10,2,5,4,12,8,4,8,2,12,10,3,7,0,12,12,7,11,4,12,10,6,8,0,12,12,10,11,2,14,10,2,9,2,12,10,0,7,2,12,10,4,-1,4,12,10,3,8,0,12,12,5,7,2,12,10,0,10,2,12,12,4,6,2,12,10,0,1,4,-1,8,7,9,10,0,2,11,5,1,6,4,8,3,
13,20,13,5,9,0,-1,10,4,-1,4,10,6,1,6,0,10,10,2,10,0,-1,10,1,9,4,10,10,3,9,0,10,10,7,11,2,10,8,2,3,2,10,10,0,7,4,10,6,3,-1,4,10,8,8,12,0,10,10,0,8,4,10,6,2,6,0,10,12,4,11,4,10,6,4,8,4,10,8,6,-1,2,10,8,3,6,0,10,10,9,12,0,10,10,2,12,2,10,10,0,1,4,10,6,4,5,10,12,9,7,1,11,0,8,3,2,6,
13,20,13,6,7,4,22,22,0,5,0,26,22,1,4,4,22,22,2,3,4,-1,18,8,11,4,-1,18,3,10,0,24,22,6,11,2,22,22,6,10,2,24,20,3,9,4,-1,18,7,10,2,22,24,7,-1,4,-1,18,1,12,4,24,18,5,7,2,22,24,4,10,0,26,22,0,12,2,22,24,1,6,4,22,20,1,11,2,22,22,4,7,4,22,24,0,7,2,22,24,3,12,4,22,20,12,3,5,0,4,6,9,11,7,8,2,1,10,
14,20,14,5,12,12,48,38,4,11,6,-1,42,0,10,0,48,48,3,11,10,48,40,9,10,12,48,46,1,7,6,-1,42,0,5,8,50,40,2,10,10,48,46,0,9,6,48,46,8,10,10,48,42,6,10,8,48,40,2,-1,0,48,-1,1,2,2,48,46,3,12,10,48,38,2,6,6,48,42,0,12,2,48,46,11,13,0,48,50,8,9,12,52,36,1,3,4,48,44,10,13,0,50,48,7,3,6,13,11,5,0,8,12,4,1,9,10,2,
14,20,14,9,11,18,176,186,3,-1,38,176,224,2,5,26,-1,150,7,11,2,204,174,3,5,16,176,188,0,12,28,204,148,12,-1,36,176,226,5,11,8,176,196,11,12,22,176,184,3,4,34,176,190,9,13,38,176,166,3,7,6,176,198,5,12,12,176,192,1,4,22,224,154,3,6,10,204,166,0,13,20,204,156,8,9,34,-1,142,6,11,34,176,170,0,10,34,-1,142,1,12,24,176,200,4,0,1,9,6,10,3,2,11,8,13,12,5,7,
14,20,14,9,12,28,-1,132,9,-1,16,160,-1,4,10,36,-1,124,2,5,6,160,164,5,10,18,160,160,0,8,14,-1,146,1,3,32,162,128,0,11,14,162,146,11,13,4,162,156,3,13,20,160,142,0,7,18,162,142,7,12,32,160,130,0,10,28,160,152,1,5,30,160,140,1,12,18,160,144,10,12,4,160,174,0,1,36,160,130,5,6,4,-1,156,0,12,26,160,148,2,11,10,170,150,6,10,3,7,1,8,13,9,11,4,5,0,12,2,
15,20,15,0,1,0,22,20,3,-1,4,-1,16,6,14,0,20,20,2,6,2,20,18,3,8,4,20,16,0,12,0,22,20,2,8,4,20,18,4,5,0,20,20,3,13,4,20,18,13,14,0,20,20,1,5,0,20,20,11,14,4,20,22,2,13,2,20,18,0,7,4,-1,16,10,11,2,-1,18,3,4,4,20,16,3,9,4,-1,16,1,8,0,20,20,5,11,2,20,24,1,12,2,20,20,5,11,13,14,9,12,8,7,0,4,10,3,6,2,1,
15,20,15,1,11,2,42,50,4,14,0,42,-1,2,14,4,42,42,3,4,2,-1,40,2,9,4,42,38,0,2,4,42,38,7,9,10,42,32,7,14,6,42,36,8,14,12,42,40,0,13,2,42,-1,1,6,0,52,42,11,14,12,42,40,2,8,2,52,40,10,13,2,-1,40,0,7,12,42,36,0,14,4,42,38,11,-1,6,-1,36,6,12,6,-1,36,5,9,10,-1,32,6,9,0,52,42,7,5,10,13,1,2,8,0,3,6,14,11,12,9,4,
15,20,15,3,12,2,56,46,8,10,10,50,38,9,12,10,48,46,5,-1,8,54,40,2,6,12,48,44,0,13,10,-1,38,14,-1,8,48,46,3,11,2,48,54,7,14,2,54,46,10,13,12,48,38,1,8,0,58,48,5,7,8,48,46,8,13,0,48,50,4,6,8,56,40,2,9,6,56,42,4,11,0,56,48,1,7,0,48,58,2,13,8,48,50,4,8,2,58,46,3,5,12,48,46,1,3,6,12,4,13,8,5,2,9,11,7,10,14,0,
16,20,16,10,12,4,62,50,13,15,2,58,52,0,12,2,-1,52,6,-1,8,56,46,2,15,6,54,52,9,13,2,58,52,1,10,4,54,-1,6,12,2,56,52,4,13,2,60,52,7,11,0,-1,54,3,9,10,54,48,2,12,2,54,54,5,6,10,-1,44,2,8,12,-1,42,11,13,6,54,54,4,11,2,54,58,9,10,12,54,50,1,14,10,-1,44,3,-1,0,56,54,2,3,10,54,46,7,11,8,3,4,12,13,15,10,14,2,5,9,0,6,1,
16,20,16,2,15,2,14,12,7,13,4,14,12,3,6,4,14,10,0,15,2,14,14,6,15,4,14,10,5,10,2,14,14,0,13,0,16,14,8,11,0,-1,14,4,12,0,18,14,1,2,4,14,10,5,7,2,14,12,11,14,0,-1,14,4,5,2,14,16,10,15,2,14,14,3,7,4,14,10,2,9,0,-1,14,1,5,4,14,10,3,-1,0,14,18,10,11,2,-1,12,12,-1,4,14,14,5,15,0,12,9,3,1,13,14,10,6,2,4,11,8,7,
12,20,12,5,10,4,14,14,1,5,0,16,14,11,-1,4,-1,10,9,10,2,16,12,4,6,4,14,12,4,9,4,14,12,6,8,4,16,10,2,3,2,14,14,0,1,0,14,16,5,8,4,14,12,5,11,4,14,18,7,-1,0,-1,14,0,10,2,14,14,0,2,4,14,14,2,11,4,14,18,0,8,4,14,12,2,4,4,16,10,0,6,2,14,14,0,4,4,14,12,0,3,0,16,14,7,9,10,3,0,6,11,1,5,4,8,2,
13,20,13,0,4,18,126,96,1,2,28,114,94,5,10,8,-1,106,3,8,34,114,106,6,10,0,-1,114,7,9,18,114,104,3,-1,20,126,94,3,7,28,114,112,8,11,10,114,112,7,11,4,122,110,0,12,12,-1,102,1,8,18,122,96,0,10,8,-1,106,4,8,36,114,98,2,9,26,122,88,3,4,30,114,106,4,9,34,114,118,1,3,10,114,124,0,3,10,114,116,4,-1,40,114,86,9,8,5,11,4,0,12,2,3,1,6,7,10,
13,20,13,3,12,0,12,12,9,10,2,12,10,8,-1,4,-1,8,3,6,4,12,12,6,8,4,12,12,9,11,4,12,12,6,11,0,16,12,5,7,2,12,-1,3,10,2,12,10,8,12,0,12,12,1,8,2,12,10,7,12,2,12,10,4,5,4,-1,8,8,11,0,14,12,1,2,0,-1,12,7,9,2,12,10,3,11,2,12,12,1,10,0,12,12,0,3,4,12,12,0,11,0,16,12,12,0,2,3,1,10,7,4,11,8,9,5,6,
16,20,16,5,11,12,54,50,6,11,0,62,54,9,10,6,-1,48,1,12,6,-1,48,5,7,12,54,44,1,2,0,54,-1,12,13,8,56,46,0,3,4,54,52,6,7,10,54,48,0,15,0,56,54,5,12,4,56,50,10,-1,10,54,46,6,8,0,56,54,0,10,2,54,54,3,7,0,56,54,14,15,12,-1,42,6,13,8,54,48,2,4,8,-1,46,8,-1,0,54,56,6,15,10,56,44,13,2,15,3,6,12,0,9,1,5,11,14,10,4,7,8,
13,20,13,2,12,38,186,192,8,9,26,-1,160,8,11,10,-1,176,8,10,4,186,182,5,7,32,186,162,3,10,30,186,182,2,3,24,212,162,0,8,2,188,184,6,12,40,186,166,1,2,2,186,210,1,5,32,194,154,4,7,30,194,156,7,8,38,186,190,8,12,4,186,202,6,10,28,186,158,6,8,24,186,162,12,-1,34,-1,152,0,10,8,186,180,1,10,18,186,194,1,4,38,186,156,3,8,6,9,10,1,5,4,2,0,7,11,12,
14,20,14,8,10,2,38,38,1,6,10,-1,28,5,13,12,38,28,3,9,10,38,40,2,4,12,-1,26,10,12,2,38,36,3,12,6,38,38,0,6,12,38,34,12,13,6,40,32,7,12,0,38,38,2,11,6,38,-1,7,10,2,38,36,3,11,8,38,38,5,8,4,40,34,3,7,0,44,38,8,9,6,38,42,0,9,4,46,34,7,11,0,46,38,6,13,4,38,42,9,10,4,38,42,0,7,13,12,2,11,8,1,10,5,9,6,3,4,
15,20,15,13,14,2,-1,18,2,3,4,-1,16,8,13,0,20,20,4,13,2,20,18,3,7,0,22,20,4,-1,4,-1,16,1,8,4,20,18,0,5,4,20,18,3,5,0,20,22,4,5,0,22,20,11,12,2,20,20,0,7,4,20,18,6,12,0,22,20,3,9,2,-1,18,0,1,4,22,16,4,6,2,20,20,4,8,2,20,18,10,11,2,20,18,3,11,2,20,18,3,10,0,20,20,7,6,3,10,2,0,5,8,12,14,11,4,9,1,13,
15,20,15,9,13,38,-1,128,0,7,20,166,168,4,11,14,176,152,2,13,36,166,154,11,12,4,188,162,3,4,4,166,172,8,11,14,166,162,0,14,12,188,154,8,10,16,176,150,3,6,8,176,158,12,-1,4,166,186,1,11,18,-1,148,6,8,14,166,162,10,14,26,166,150,12,13,10,166,180,2,-1,26,190,140,5,7,30,-1,136,7,12,22,166,166,7,14,28,166,174,8,14,0,166,176,11,0,2,14,8,10,4,13,1,6,3,5,12,7,9,
14,20,14,0,9,32,142,140,0,3,18,184,124,13,-1,28,142,162,12,13,40,142,142,3,-1,18,142,166,7,8,26,-1,116,1,6,12,160,130,9,10,26,142,120,4,6,10,142,172,9,12,28,146,114,2,12,32,-1,110,1,13,8,142,152,8,-1,26,142,158,4,10,4,146,138,8,9,18,142,166,6,11,32,142,128,5,12,12,146,130,4,5,22,142,124,0,10,20,142,152,11,13,10,160,132,1,8,11,12,6,3,13,7,4,0,10,9,5,2,
14,20,14,1,11,32,152,-1,2,3,24,-1,128,3,6,28,152,154,6,7,2,156,150,8,9,6,156,146,0,11,38,172,114,7,13,22,156,130,8,13,24,152,132,9,10,34,152,146,4,10,2,152,178,0,6,22,152,150,5,10,30,-1,122,9,-1,24,152,168,4,6,16,152,146,8,11,36,152,136,0,-1,24,152,168,4,7,4,162,148,6,9,10,152,146,3,10,6,152,176,1,12,26,-1,126,8,5,1,2,9,0,4,6,13,12,3,7,11,10,
14,20,14,1,3,12,46,36,10,13,6,46,40,6,13,10,46,40,8,12,6,46,42,4,13,10,46,36,2,9,0,46,46,0,3,0,46,46,1,5,8,46,40,1,2,4,46,42,6,7,12,46,36,7,12,8,48,38,4,9,10,46,36,3,13,6,46,40,0,10,0,46,46,1,12,0,46,48,8,11,8,46,38,2,10,6,46,40,5,6,10,48,36,1,11,4,46,42,2,8,8,46,38,13,12,2,8,3,11,0,4,6,1,9,7,10,5,
14,20,14,5,-1,32,202,172,2,-1,20,202,182,6,12,12,202,190,3,4,28,-1,174,10,-1,18,202,184,3,-1,10,202,192,6,7,24,202,202,1,6,16,202,186,7,12,12,202,214,1,10,20,202,182,3,9,14,202,188,8,12,26,-1,176,0,10,4,-1,198,1,9,12,202,196,5,12,28,204,174,9,12,2,202,200,7,11,38,-1,164,2,3,10,202,192,10,13,22,-1,180,3,7,36,202,202,0,13,2,7,10,12,8,6,3,11,9,5,1,4,
15,20,15,0,14,4,-1,26,2,12,2,30,32,9,10,4,-1,26,2,-1,4,-1,26,8,12,2,30,32,4,10,4,-1,26,5,13,4,30,32,11,14,2,34,28,8,13,2,34,28,7,10,2,-1,28,5,8,4,30,32,9,11,4,30,30,6,9,2,-1,28,5,9,0,36,30,8,9,4,30,32,1,5,2,-1,28,12,14,0,34,30,9,12,2,30,32,2,13,2,30,32,3,5,4,-1,26,8,12,6,13,11,14,9,0,7,4,1,2,10,3,5,
15,20,15,3,6,4,18,12,2,14,0,18,16,7,13,2,16,16,4,7,2,18,14,1,10,0,-1,16,0,14,4,16,12,1,13,0,16,-1,0,4,4,16,12,3,11,2,16,16,4,9,2,16,16,2,13,4,16,16,2,3,4,16,14,4,-1,0,16,16,14,-1,0,16,16,6,9,0,16,18,6,13,4,16,16,8,11,0,-1,16,11,13,2,16,16,5,9,4,-1,12,12,13,2,-1,14,5,0,10,6,1,3,11,8,12,4,13,9,14,7,2,
15,20,15,4,6,18,-1,144,9,14,12,162,184,3,8,18,162,152,7,12,30,162,170,5,10,40,162,130,9,12,2,196,160,2,14,24,162,174,5,8,16,170,146,1,7,16,162,182,6,7,0,162,216,12,-1,36,162,160,2,7,14,162,184,2,10,2,162,-1,11,-1,10,196,152,2,6,40,162,176,11,14,2,196,160,2,13,40,-1,122,1,11,16,198,146,0,7,24,-1,138,3,10,34,170,128,8,4,6,12,1,2,10,0,3,5,11,14,9,7,13,
16,20,16,1,8,8,-1,56,14,15,0,66,64,4,10,6,64,60,8,10,6,-1,58,7,13,10,-1,54,2,-1,8,64,80,0,14,6,64,70,10,15,8,64,58,0,6,0,-1,64,13,-1,12,64,76,9,13,6,64,82,0,9,0,88,64,8,11,10,-1,54,0,12,12,64,64,2,14,12,64,68,12,14,6,76,58,2,3,8,64,-1,0,2,2,80,62,4,14,12,66,52,3,5,10,-1,54,9,12,15,11,2,7,6,3,14,10,1,4,5,8,13,0,
16,20,16,5,14,10,50,56,4,5,6,50,60,3,7,6,50,54,0,1,6,54,44,2,10,2,50,58,8,12,4,54,46,0,13,4,50,50,3,13,10,54,40,10,15,4,60,46,5,9,12,-1,38,4,8,2,54,48,1,4,4,50,50,8,11,2,-1,48,13,15,12,50,48,6,7,8,-1,42,2,3,10,50,44,7,14,8,50,52,13,14,6,50,48,12,14,10,50,44,2,14,2,54,48,4,0,9,12,10,8,6,5,3,13,7,1,15,14,2,11,
16,20,16,7,13,2,20,-1,1,3,4,20,16,0,15,4,20,22,6,7,2,-1,18,1,8,0,20,20,10,14,4,20,16,5,13,4,-1,16,8,13,0,20,20,0,11,2,20,24,11,15,0,20,20,8,12,0,20,20,12,14,4,20,18,2,4,4,-1,16,10,12,2,20,18,4,13,0,20,20,4,15,2,20,18,13,14,4,20,18,0,9,2,-1,18,3,15,2,20,18,11,14,4,20,16,6,8,7,13,15,1,5,4,2,12,11,0,10,3,14,9,
11,21,11,4,9,4,16,12,2,8,0,16,16,0,8,4,16,14,7,10,4,16,12,3,5,2,16,14,1,3,4,16,12,6,8,4,16,16,8,-1,2,-1,14,8,9,0,16,16,5,9,2,16,16,6,9,0,16,16,0,10,4,16,12,0,6,2,16,14,4,8,4,16,12,3,7,4,16,16,5,8,0,16,16,5,6,2,16,16,3,8,2,16,14,2,5,0,16,16,7,8,4,16,14,1,7,4,16,12,1,7,2,3,10,8,4,6,0,9,5,
14,21,14,1,12,4,36,36,9,10,4,-1,32,7,11,8,-1,28,0,3,0,36,36,1,5,10,36,26,5,6,0,36,38,2,10,0,-1,36,12,13,6,38,30,1,11,10,36,26,6,12,10,36,28,3,13,12,36,26,0,4,6,36,30,1,10,6,36,30,5,11,0,36,36,1,4,2,36,34,6,8,0,-1,36,0,-1,10,36,34,3,10,2,36,34,12,-1,12,36,38,1,-1,2,36,42,3,4,6,36,30,2,8,0,4,11,3,5,7,13,10,9,1,6,12,
14,21,14,1,9,6,48,52,3,8,12,48,52,6,8,8,48,42,2,10,6,54,42,9,13,0,58,48,1,12,10,-1,38,1,2,8,48,48,4,8,2,-1,46,3,11,8,48,48,1,11,6,48,50,3,7,6,-1,42,8,13,12,48,46,6,9,10,50,38,2,11,12,48,42,9,11,2,54,46,2,3,6,48,50,6,10,12,48,42,5,7,8,48,-1,2,6,6,48,48,8,9,4,48,46,0,5,12,-1,36,5,11,6,9,10,4,7,3,12,2,1,8,0,13,
14,21,14,2,4,10,44,32,2,12,12,42,32,0,8,0,56,42,0,-1,4,42,52,1,12,8,44,34,3,6,4,42,40,7,9,12,42,34,1,9,8,42,36,5,7,0,42,44,6,-1,12,42,46,6,9,10,42,34,3,7,0,44,42,1,11,6,42,38,6,11,8,44,34,4,7,8,42,36,10,13,8,46,34,8,10,10,42,46,4,13,8,42,38,5,9,8,44,34,10,12,4,42,42,7,-1,6,42,50,2,7,10,0,1,5,6,9,3,8,11,13,4,12,
14,21,14,4,-1,2,18,18,7,10,2,18,16,9,11,2,18,16,1,6,4,18,14,3,13,2,18,16,1,2,4,18,14,4,6,4,18,14,8,9,2,20,16,3,11,4,18,16,3,4,2,18,18,9,13,2,18,16,0,12,2,-1,16,1,11,2,18,16,0,10,0,18,-1,1,8,4,18,16,3,6,4,18,14,4,7,4,18,14,7,9,4,18,14,10,-1,2,18,18,4,5,0,-1,18,2,10,2,18,16,2,9,1,0,5,11,8,3,13,10,6,12,7,4,
14,21,14,6,11,8,-1,32,0,2,10,40,36,5,6,2,40,46,8,10,6,44,34,0,-1,2,40,38,8,13,2,40,38,1,7,12,40,28,6,13,12,40,36,1,12,12,40,28,13,-1,0,40,40,9,12,8,40,36,4,5,4,40,36,2,12,6,40,34,3,9,2,44,38,0,7,2,40,38,3,10,10,40,34,3,8,0,40,40,4,-1,6,40,38,0,3,0,40,40,0,5,4,40,36,2,4,4,40,36,0,10,12,13,2,9,3,1,4,6,8,5,7,11,
15,21,15,1,-1,4,16,14,6,9,0,18,16,7,13,2,-1,14,12,14,2,16,16,2,14,2,18,14,0,11,4,16,14,3,6,2,16,16,8,9,0,18,16,13,-1,0,18,16,9,11,2,18,14,1,10,2,18,14,1,8,2,16,16,6,10,2,16,16,5,8,0,16,18,2,13,4,16,14,0,3,2,18,14,12,13,0,18,16,0,5,2,16,16,4,14,2,-1,14,9,12,4,16,14,5,14,4,18,12,3,2,6,13,11,4,0,9,1,7,14,8,10,5,12,
15,21,15,7,14,2,-1,10,3,8,4,12,12,2,11,0,12,12,6,9,4,12,12,1,12,0,12,12,2,12,0,12,12,0,2,0,12,12,6,10,4,-1,8,1,8,2,12,12,3,11,0,12,12,0,11,0,12,12,7,10,4,12,-1,6,12,0,14,12,11,13,4,-1,8,5,-1,2,-1,10,2,6,2,12,12,3,4,0,12,12,1,9,0,16,12,1,4,0,12,12,0,5,0,12,-1,6,8,0,14,12,0,7,8,11,10,9,12,2,13,3,5,4,1,14,6,
16,21,15,4,7,2,-1,82,1,10,8,-1,76,6,9,10,84,104,2,4,10,-1,74,12,13,6,90,78,1,13,4,84,86,0,12,4,84,84,2,12,6,84,82,1,12,12,84,82,4,11,12,-1,72,5,8,12,-1,72,1,2,10,84,80,1,8,4,84,110,13,14,2,102,82,6,13,8,84,94,8,9,6,84,108,6,14,12,84,90,3,13,12,-1,72,6,15,8,-1,76,0,-1,12,88,72,2,-1,6,84,82,12,4,10,1,15,11,2,5,3,7,8,13,14,6,0,
16,21,16,9,13,12,66,66,5,9,8,78,58,2,12,4,70,62,4,7,10,66,70,3,15,4,66,66,7,11,4,78,62,0,15,2,80,64,2,10,10,-1,56,1,8,12,-1,54,1,3,6,70,60,0,11,4,66,74,6,15,10,66,60,6,14,6,-1,60,6,12,6,66,64,1,2,6,70,60,0,4,8,66,70,1,-1,10,66,-1,5,13,10,66,70,4,13,8,78,58,3,4,12,66,68,5,7,8,66,70,8,3,5,12,11,6,13,4,10,0,1,14,15,9,7,2,
13,21,13,1,12,22,120,98,11,12,36,120,90,1,7,32,120,112,3,9,40,120,120,0,3,22,150,98,2,6,4,130,116,7,8,36,144,84,4,12,26,120,114,4,11,24,126,96,2,11,34,120,96,0,10,32,120,118,6,12,10,120,110,1,10,30,120,120,4,9,6,160,114,1,6,12,120,108,6,-1,26,120,132,4,5,6,126,114,10,-1,0,158,120,1,5,22,120,104,1,8,28,120,116,3,12,12,120,138,9,3,10,8,2,5,4,11,6,0,7,1,12,
13,21,13,3,12,2,10,8,7,8,0,10,10,2,8,4,10,6,4,7,4,10,10,6,9,2,10,10,1,4,0,12,10,7,10,2,10,10,8,10,4,10,10,2,11,4,10,6,5,9,0,10,10,1,6,0,10,12,3,4,2,10,8,8,12,4,10,10,6,10,0,12,10,5,11,0,10,10,0,7,0,10,10,8,9,0,10,10,11,12,0,10,10,0,10,4,10,10,0,4,0,10,10,12,-1,4,-1,6,8,2,9,0,7,3,4,10,1,11,12,5,6,
13,21,12,8,-1,6,36,34,3,9,8,36,30,2,3,0,36,38,4,6,10,36,32,4,5,2,42,34,6,7,4,38,32,0,6,10,38,26,0,12,10,36,28,1,11,8,-1,28,11,12,0,36,38,9,12,8,36,30,5,9,4,38,32,5,12,2,38,34,5,8,2,36,36,3,8,2,38,34,7,8,6,36,32,3,12,8,36,34,6,10,4,-1,32,3,5,6,36,34,7,-1,2,36,38,2,11,4,36,34,5,8,9,6,4,10,7,0,11,12,1,3,
14,21,14,0,2,0,38,34,11,12,6,-1,28,0,3,6,34,30,5,13,4,40,30,2,3,8,34,30,4,8,6,34,30,9,10,8,34,30,3,11,6,36,28,5,10,2,36,32,7,11,8,46,26,4,6,0,34,-1,0,10,6,34,30,2,-1,8,34,38,1,6,0,-1,34,0,9,0,36,34,0,8,2,36,32,0,13,12,34,28,7,-1,12,34,34,4,5,6,36,28,5,11,4,34,32,4,9,4,34,32,10,9,13,1,4,7,5,11,12,0,3,2,8,6,
14,21,14,4,7,34,130,124,7,12,28,130,132,1,10,20,146,110,10,11,14,130,132,11,13,22,130,112,2,9,36,130,112,0,7,16,130,118,2,6,12,136,118,5,7,24,144,106,5,10,38,130,108,5,12,36,130,108,4,9,16,134,114,4,11,6,134,124,1,7,34,130,112,2,8,4,-1,126,2,4,2,136,128,6,12,22,130,114,0,13,22,134,108,3,12,24,136,106,7,9,10,130,124,3,9,38,130,98,2,1,8,4,13,10,0,11,6,3,5,12,9,7,
15,21,15,2,12,12,-1,136,1,6,0,156,148,0,10,6,156,142,0,9,26,148,152,11,12,2,148,164,10,12,28,148,128,6,13,0,160,148,1,12,0,148,156,5,7,18,170,130,3,9,38,-1,110,9,11,16,148,150,6,14,30,156,118,7,-1,12,-1,136,4,8,32,-1,116,0,14,16,148,140,5,11,40,148,130,0,1,34,148,134,4,11,10,148,-1,7,11,0,170,148,0,13,26,148,134,9,14,30,148,136,4,2,9,7,5,11,14,8,12,3,10,1,0,6,13,
15,21,15,3,12,6,44,50,9,11,8,44,50,9,12,4,56,40,3,4,10,44,46,3,8,0,56,44,2,14,10,44,40,4,14,8,44,42,5,7,10,44,48,6,9,4,44,52,5,10,2,-1,42,2,5,10,50,34,1,6,12,-1,32,0,2,4,44,52,13,14,0,58,44,0,-1,8,56,36,7,11,6,58,38,6,-1,12,44,44,11,13,10,44,48,3,11,12,44,52,0,8,10,44,46,4,5,2,50,42,5,10,12,3,4,8,11,13,14,2,0,1,6,7,9,
15,21,15,5,6,28,152,148,11,14,0,152,174,6,10,10,170,142,14,-1,12,174,140,0,6,8,152,166,5,9,36,152,124,3,8,20,166,132,3,13,34,152,136,9,11,40,160,112,0,12,8,-1,144,0,-1,26,152,148,3,11,30,152,144,1,4,34,-1,118,3,10,34,152,132,6,13,14,152,156,5,7,2,-1,150,8,10,0,152,166,5,11,12,152,148,2,13,26,-1,126,4,9,28,152,148,4,13,22,152,154,1,13,14,5,12,10,2,11,9,0,3,8,6,4,7,
16,21,16,1,3,28,-1,204,11,14,2,232,248,9,15,14,248,218,2,13,22,252,210,8,9,14,240,218,0,2,40,232,220,4,13,16,232,236,9,13,32,232,236,0,14,34,232,216,5,9,28,-1,204,4,10,32,-1,200,6,9,32,232,218,0,1,16,232,-1,12,14,40,-1,192,2,11,38,232,214,7,9,4,232,236,0,6,38,250,194,4,15,30,232,218,4,7,4,240,228,8,11,34,232,206,4,11,12,240,220,9,13,6,5,8,1,14,12,11,0,2,4,10,3,7,15,
16,21,16,11,13,8,-1,42,14,15,8,-1,42,9,-1,8,50,-1,4,8,8,54,42,4,9,8,50,46,1,2,6,54,44,3,8,8,50,46,7,14,8,50,46,6,14,10,50,-1,0,14,6,50,48,0,12,0,62,50,0,1,2,50,52,2,3,6,50,50,5,9,4,54,46,2,11,12,50,-1,1,12,10,50,52,3,7,10,54,40,2,8,8,50,46,2,5,0,50,54,6,10,6,-1,44,8,14,6,50,48,2,7,1,0,13,4,6,12,8,10,15,9,11,3,14,5,
16,21,16,13,14,20,124,88,0,9,0,132,108,11,15,28,108,84,1,2,6,126,102,0,15,34,108,98,7,9,2,-1,106,6,9,4,124,104,3,9,2,108,122,2,11,18,108,108,5,11,40,112,68,12,14,22,108,102,8,12,16,124,92,1,10,4,-1,104,1,-1,24,108,-1,6,13,10,108,114,1,8,22,108,102,3,6,22,108,106,3,15,30,108,96,4,15,16,112,92,4,5,32,108,80,1,3,0,124,108,4,1,8,3,10,14,5,0,6,11,15,12,13,7,2,9,
16,21,16,2,15,0,-1,10,14,-1,4,10,8,4,10,2,12,8,7,13,4,-1,6,10,12,2,12,8,1,8,2,10,10,6,12,0,10,12,5,14,2,10,10,2,7,2,10,10,1,5,0,12,10,3,11,0,-1,10,2,12,0,10,12,8,10,0,12,10,8,9,2,10,10,5,7,0,10,12,0,9,4,10,10,0,6,0,12,10,3,6,0,10,-1,0,-1,0,10,12,4,5,4,10,8,9,14,2,12,8,12,9,13,10,0,6,8,14,3,11,7,15,2,1,5,4,
14,21,14,2,11,0,8,10,2,7,2,8,8,1,13,0,-1,8,7,13,0,8,10,7,8,0,10,8,8,9,4,8,4,11,12,0,10,8,0,2,2,-1,6,5,6,0,10,8,7,11,2,8,8,10,12,4,8,6,2,9,4,8,4,4,10,2,10,6,5,8,0,8,10,3,6,2,8,8,2,8,0,8,8,2,6,2,8,8,3,8,0,10,8,4,11,0,8,10,6,13,2,8,8,3,11,4,8,8,6,10,4,1,8,3,9,13,12,0,11,5,7,2,
16,21,16,10,-1,24,166,174,1,11,32,198,134,8,11,24,166,174,10,14,36,166,172,8,13,22,196,144,3,13,40,166,156,2,10,14,166,-1,9,14,34,-1,132,6,-1,36,166,162,7,10,10,198,156,8,15,36,166,162,3,14,38,166,192,0,2,2,-1,164,3,8,12,166,184,7,8,2,166,196,4,12,34,-1,132,3,15,16,198,150,1,5,4,-1,162,12,14,28,166,180,6,12,6,166,202,1,6,12,198,154,14,7,2,3,4,10,6,13,15,0,12,1,5,8,9,11,
16,21,16,7,12,34,146,140,6,7,0,154,146,3,5,6,148,140,4,5,0,146,148,4,10,16,146,178,8,11,40,-1,106,7,15,0,154,146,0,10,40,-1,106,6,14,2,-1,144,3,12,22,146,126,1,7,10,174,136,9,12,6,174,140,12,13,20,-1,126,15,-1,40,146,-1,5,10,32,146,162,2,6,8,154,138,6,15,30,146,146,1,9,10,146,164,7,11,24,146,-1,4,12,14,148,132,2,15,16,146,138,2,7,11,4,9,8,6,15,5,12,13,1,14,0,3,10,
10,21,10,4,6,10,22,20,1,-1,12,22,26,5,-1,2,22,26,1,2,0,28,22,5,6,10,22,20,9,-1,6,22,22,2,8,2,22,24,4,5,12,26,10,7,8,10,22,16,2,5,2,22,24,1,8,10,22,24,0,6,6,-1,16,3,8,0,26,22,3,6,10,22,20,3,5,0,22,26,4,9,10,22,16,7,-1,12,22,18,1,3,4,22,24,7,9,4,26,18,2,3,6,22,24,1,6,8,22,22,9,7,1,0,5,8,2,6,3,4,
13,21,13,9,11,26,110,106,6,12,36,110,110,5,11,24,-1,86,0,3,30,110,102,3,11,34,110,120,11,12,28,110,124,2,11,20,110,112,1,12,18,110,110,3,12,4,132,106,2,6,12,128,98,0,7,6,110,126,6,11,22,110,118,1,6,0,110,128,2,4,0,138,110,1,9,12,132,98,6,7,10,132,100,6,-1,30,-1,80,2,8,10,-1,100,0,10,8,-1,102,1,4,40,110,98,2,12,12,110,116,12,10,4,7,3,6,11,1,5,9,2,0,8,
16,21,16,5,7,4,10,10,0,3,2,10,10,4,5,0,12,10,1,2,2,-1,8,3,10,2,10,10,4,15,2,10,10,13,15,2,12,8,4,11,4,12,6,7,10,0,12,10,0,12,2,12,8,0,8,4,10,8,4,8,0,12,10,7,13,0,10,12,6,12,4,10,10,1,5,4,10,-1,3,6,0,12,10,11,12,4,10,8,6,10,2,10,10,9,14,0,-1,10,4,14,0,10,-1,5,12,2,10,10,15,13,3,5,7,8,6,2,9,14,10,12,4,1,0,11,
16,21,16,7,9,2,164,172,0,7,4,-1,160,7,8,10,164,164,5,10,6,172,158,2,8,26,164,176,1,9,36,164,-1,3,15,34,-1,130,4,10,38,170,126,5,8,12,164,160,10,14,2,164,168,8,12,28,164,166,2,9,20,164,174,0,15,22,164,-1,1,6,32,-1,132,4,-1,24,164,146,9,10,4,174,160,8,14,0,170,164,8,-1,18,164,152,2,12,16,194,148,9,11,30,164,-1,11,13,30,-1,134,10,4,15,1,8,3,14,11,12,7,6,2,13,0,5,9,
13,22,13,1,9,16,138,144,10,12,20,138,-1,1,2,14,138,142,11,-1,8,140,130,4,5,32,138,124,0,-1,18,138,138,1,-1,28,138,112,2,10,36,138,150,0,10,22,138,138,3,11,16,-1,122,1,11,18,140,120,0,6,24,138,122,0,5,18,156,120,7,9,40,138,130,2,4,2,156,136,9,10,8,160,130,0,11,16,138,146,2,7,28,138,128,0,1,32,138,130,8,12,28,-1,110,0,7,24,138,122,6,7,40,146,98,8,12,9,6,2,7,5,3,4,11,1,10,0,
13,22,11,4,6,32,108,84,2,8,28,108,110,0,8,14,108,118,1,12,4,116,104,1,11,20,108,-1,3,7,30,116,78,2,6,12,108,104,6,8,38,108,110,8,10,16,128,92,1,4,32,108,86,1,6,2,116,106,2,3,20,108,96,5,12,14,108,102,4,5,32,116,76,0,2,8,108,120,4,7,30,108,86,8,9,18,108,110,0,-1,10,-1,98,0,10,26,108,102,7,12,24,108,104,1,2,30,108,106,1,9,14,128,94,7,9,6,10,3,5,8,0,12,1,4,
14,22,14,5,8,4,16,14,7,11,2,-1,14,3,5,2,16,14,7,13,4,16,-1,11,12,0,16,-1,2,8,0,16,16,9,12,4,-1,12,5,6,2,16,14,0,1,0,22,16,0,6,4,16,18,3,-1,4,16,14,2,12,0,16,16,6,8,4,16,12,3,8,0,16,16,1,6,2,16,20,10,-1,2,16,14,3,12,4,16,16,2,6,4,16,12,5,10,2,16,14,5,-1,0,16,16,10,12,4,16,12,4,13,4,-1,12,7,6,13,0,12,1,4,2,11,9,10,5,8,3,
16,22,16,0,6,6,32,32,11,-1,0,32,34,7,8,4,32,30,1,12,2,32,32,0,8,4,34,28,7,15,12,-1,20,6,12,0,32,36,4,6,4,36,28,4,9,8,32,28,3,10,6,34,26,3,11,0,32,34,7,12,2,32,32,10,14,8,32,26,2,14,2,34,30,3,5,0,32,34,5,9,0,34,32,5,12,10,32,32,9,-1,2,32,32,0,14,0,32,34,2,13,4,-1,28,1,2,0,34,32,11,12,0,34,32,15,0,9,1,5,13,12,8,3,11,7,6,14,10,2,4,
16,22,16,4,13,8,124,104,5,13,16,112,124,13,15,22,112,116,1,3,20,-1,92,7,9,24,124,88,0,3,20,112,120,2,-1,12,112,-1,2,4,34,112,90,0,10,36,112,108,7,10,2,112,122,10,13,16,112,108,12,15,12,138,100,4,10,32,112,116,2,9,8,124,104,2,8,8,132,104,2,6,14,-1,98,8,9,36,112,96,9,14,6,-1,106,0,5,0,140,112,3,8,14,112,126,10,11,12,-1,100,7,12,22,112,116,1,13,2,4,5,10,12,11,0,14,3,9,6,8,7,15,
16,22,16,6,10,34,132,130,0,1,36,-1,96,13,15,16,132,130,6,13,0,138,132,0,15,2,132,-1,10,13,8,132,130,4,9,18,-1,114,9,13,0,132,138,9,10,2,132,130,9,12,24,132,108,2,10,12,132,-1,10,15,2,132,130,12,14,28,132,104,7,11,2,-1,130,4,11,0,132,-1,10,14,4,132,130,6,-1,6,138,126,3,-1,10,138,122,3,14,26,132,112,2,8,30,-1,102,5,6,0,-1,132,14,15,4,132,128,14,15,2,5,8,4,3,10,1,9,0,13,6,7,12,11,
14,22,13,1,13,22,148,142,0,6,18,148,146,5,-1,22,166,126,3,7,18,148,150,6,13,0,164,148,7,10,30,148,136,4,13,28,148,156,4,12,28,168,120,1,5,16,148,150,2,8,14,-1,134,9,10,16,166,132,0,2,24,164,124,3,-1,26,148,140,4,7,24,148,144,1,7,18,164,130,3,12,22,148,146,1,-1,36,148,142,2,9,26,148,160,7,12,40,148,144,3,9,2,148,164,2,7,18,148,146,3,11,26,-1,122,5,11,12,0,13,6,3,7,4,1,9,8,10,
15,22,15,0,6,0,12,14,13,14,0,-1,12,2,12,0,14,12,8,14,2,12,12,3,10,2,-1,10,1,2,4,12,16,4,-1,4,-1,8,0,3,4,12,14,0,8,0,14,12,3,12,2,12,12,6,14,0,14,12,5,14,2,-1,10,6,9,4,12,12,9,12,2,12,16,1,14,2,12,14,0,9,4,12,12,6,11,4,12,12,7,9,2,-1,10,4,5,4,12,-1,8,9,0,12,16,2,3,0,12,14,1,11,2,16,10,5,13,0,11,1,3,9,7,12,2,4,14,6,10,8,
15,22,15,10,13,4,18,14,10,-1,4,18,18,5,11,4,18,14,6,14,2,18,16,2,6,2,18,16,1,4,2,18,20,5,10,2,18,16,3,5,2,18,16,1,8,2,22,16,8,12,0,22,18,4,12,4,18,18,13,14,4,18,14,0,4,4,-1,14,8,14,0,18,18,11,-1,2,18,16,14,-1,0,18,18,3,7,4,18,18,2,14,0,18,18,3,8,0,18,18,9,12,2,18,20,7,9,2,22,16,8,11,4,18,16,11,9,8,10,2,1,5,3,6,0,14,12,13,7,4,
16,22,16,5,10,2,16,12,0,15,2,16,12,6,11,2,16,12,8,10,2,14,16,1,15,4,14,12,10,-1,4,14,-1,13,14,2,-1,12,7,12,2,16,12,4,14,4,14,14,4,6,2,14,14,10,14,0,14,16,11,15,2,14,14,2,4,0,16,14,9,10,2,14,14,6,7,2,14,14,1,9,4,16,10,5,6,4,14,12,2,6,0,14,16,0,9,4,14,12,12,14,0,14,16,3,8,0,18,14,3,6,2,14,16,8,15,14,3,4,2,0,9,5,10,7,6,1,13,11,12,
16,22,15,9,14,4,16,14,0,5,0,18,16,9,15,4,16,18,10,14,0,18,16,7,12,4,-1,12,0,13,2,16,16,2,11,0,16,18,3,-1,2,18,14,4,9,2,-1,14,6,8,4,-1,12,13,-1,4,16,14,1,2,4,16,14,11,15,2,16,16,5,8,4,18,12,5,13,0,18,16,1,10,0,16,18,3,11,0,18,16,0,9,2,16,16,1,8,0,18,16,3,15,0,18,16,5,9,2,16,16,7,14,2,16,-1,1,6,14,15,12,13,11,4,8,5,10,0,3,7,9,
14,22,14,1,10,0,22,20,3,4,4,20,16,1,7,2,20,20,9,10,0,24,20,7,11,2,-1,18,3,12,4,20,16,1,4,4,20,20,5,8,4,-1,16,4,13,4,20,16,6,-1,4,20,-1,0,5,4,20,20,0,7,4,20,16,2,9,4,20,20,12,13,4,20,16,2,4,2,20,20,4,6,2,22,18,5,7,4,20,20,2,3,4,20,16,4,10,0,20,20,7,10,0,20,20,0,2,4,20,16,2,6,4,20,18,4,11,0,13,8,10,12,7,5,2,1,6,9,3,
16,22,16,2,4,40,-1,126,5,7,2,166,176,1,15,14,166,174,0,1,14,-1,152,4,5,8,166,172,3,7,30,166,160,6,7,18,166,176,3,8,30,166,148,8,13,12,188,154,1,3,2,178,164,8,10,8,-1,158,3,5,26,166,162,11,15,2,166,186,1,-1,40,166,-1,14,15,28,-1,138,4,9,32,166,148,6,11,0,194,166,8,9,12,180,154,11,13,34,166,154,1,7,4,178,162,8,12,32,-1,134,5,8,14,178,152,12,13,8,10,2,11,5,0,15,7,6,14,1,3,9,4,
16,22,16,3,9,0,22,24,7,8,2,22,22,4,8,0,-1,22,0,7,4,24,18,12,15,4,22,22,1,15,4,22,18,2,9,2,22,20,1,14,4,22,18,13,15,2,22,20,0,2,0,22,22,5,13,0,24,22,13,14,2,22,20,2,12,4,22,22,0,3,4,22,20,11,13,4,-1,18,0,12,0,22,22,3,5,4,22,20,9,12,2,22,20,0,10,4,-1,18,8,15,4,22,20,0,9,2,22,20,3,6,2,-1,20,11,7,2,8,9,10,15,4,3,14,12,0,5,6,13,1,
13,22,13,1,3,10,38,32,10,11,4,42,34,12,-1,6,-1,32,1,11,4,38,38,4,6,2,42,36,2,3,8,42,30,7,9,4,38,38,2,12,6,38,36,6,12,2,38,40,5,8,0,50,38,4,11,4,38,38,9,12,4,38,40,0,9,12,-1,26,4,7,2,38,40,3,6,8,38,38,5,6,8,38,42,8,12,6,38,44,5,7,12,38,42,1,7,6,42,32,9,10,6,38,36,6,11,8,38,36,8,9,4,38,46,4,7,8,12,0,5,10,3,6,11,1,9,2,
14,22,14,1,7,6,-1,34,5,6,2,40,38,0,10,0,44,40,6,12,0,40,40,2,7,6,44,34,4,8,10,-1,30,9,12,4,40,40,12,13,12,40,36,5,12,2,40,38,2,10,4,40,40,3,6,6,40,42,0,11,12,40,36,3,11,12,48,28,10,12,2,40,42,6,13,4,40,36,12,-1,2,40,38,13,-1,2,40,38,4,6,0,40,-1,6,10,6,40,42,7,9,0,44,40,0,2,4,40,40,9,13,10,40,36,0,5,11,2,4,9,3,6,13,7,8,10,12,1,
14,22,14,6,8,2,12,12,2,10,4,12,10,6,9,4,12,10,9,12,4,12,10,6,10,2,12,10,2,6,4,12,10,1,6,2,12,10,1,8,2,12,10,1,13,2,12,10,2,4,0,12,12,8,9,2,12,10,9,13,4,12,10,5,13,2,12,12,3,10,4,12,8,2,13,2,12,10,0,4,0,-1,12,3,8,2,12,10,5,12,2,14,10,6,7,0,-1,12,4,9,4,12,8,6,11,0,16,12,11,12,4,12,12,10,5,3,4,13,12,0,1,2,6,9,11,8,7,
14,22,14,6,8,4,56,54,9,12,8,56,62,6,9,6,58,50,4,8,12,56,60,8,11,12,56,52,2,6,12,56,52,4,6,8,56,56,3,7,2,56,62,12,13,12,-1,44,3,9,8,56,56,4,5,8,-1,48,7,12,8,56,64,3,12,6,56,64,1,9,8,56,50,0,1,6,58,50,1,7,8,56,56,3,11,10,64,46,7,10,6,-1,50,0,4,4,56,60,0,2,10,56,48,2,8,8,58,48,0,7,12,56,58,3,11,10,4,1,7,9,6,0,12,2,13,8,5,
15,22,15,2,8,40,170,172,4,7,32,170,162,4,-1,14,-1,156,2,7,16,174,154,3,13,40,170,170,5,7,8,170,172,6,9,34,-1,136,2,4,8,170,186,3,9,28,170,190,10,11,14,170,-1,3,14,8,170,202,3,8,16,170,194,1,10,34,170,176,4,9,26,170,192,1,14,8,210,162,3,5,0,174,170,11,12,40,-1,130,0,8,24,-1,146,2,5,18,170,156,10,13,34,210,136,3,7,2,170,172,7,8,22,170,188,4,3,1,2,0,10,6,12,11,13,8,14,5,9,7,
15,22,15,3,12,4,12,8,0,13,2,12,10,2,8,4,12,10,5,11,2,-1,10,10,11,4,12,14,3,9,2,12,14,1,10,4,12,12,2,6,0,12,14,1,-1,4,12,12,7,8,2,12,10,1,14,0,18,12,6,8,4,12,10,9,10,2,16,10,4,6,0,14,12,4,8,2,12,10,3,13,2,12,10,0,3,2,12,12,9,14,4,12,14,2,-1,0,16,12,0,4,4,12,8,9,11,4,12,14,7,12,0,12,12,1,12,14,7,9,0,2,8,10,13,11,3,6,5,4,
15,22,15,5,10,0,18,18,5,6,2,18,16,4,10,2,18,18,11,14,2,-1,16,7,13,2,18,16,8,14,2,18,16,3,13,2,-1,16,10,-1,4,-1,14,1,2,0,18,18,0,13,4,18,16,7,14,0,18,18,0,10,0,18,18,0,1,2,18,16,4,9,4,18,14,0,12,4,18,16,2,12,0,20,18,9,10,4,18,14,6,14,2,18,16,4,8,2,18,16,8,10,2,18,16,2,6,4,18,14,2,13,0,18,18,10,3,2,6,4,14,11,7,1,12,0,9,5,13,8,
15,22,15,7,14,2,40,-1,1,3,12,40,38,1,9,8,40,38,1,5,2,44,38,0,13,4,42,36,1,13,4,42,36,10,11,6,-1,34,0,3,6,40,36,8,10,2,40,44,12,13,0,46,40,6,14,6,-1,34,1,2,2,42,38,2,3,6,40,36,1,10,12,40,34,3,9,0,46,40,4,8,6,46,34,5,13,10,40,34,7,12,6,40,42,4,12,2,40,44,7,8,6,40,42,0,4,10,40,38,7,-1,10,-1,30,4,2,1,13,0,6,12,7,14,11,10,3,5,8,9,
16,22,16,12,14,26,-1,206,3,-1,14,232,220,13,14,12,256,220,3,4,26,234,206,10,13,40,232,216,2,11,26,232,232,5,9,38,232,236,1,15,28,-1,204,7,11,32,232,242,0,10,36,-1,196,9,10,28,232,226,5,7,30,274,202,8,11,24,232,230,1,14,2,256,230,1,11,30,234,202,10,-1,4,232,232,1,10,4,232,230,6,9,36,232,222,2,6,38,258,194,4,10,14,232,220,11,-1,26,232,208,8,9,4,254,228,0,7,9,13,10,1,4,12,2,5,6,14,3,8,11,15,
13,23,13,2,4,10,32,24,5,10,6,40,26,1,2,6,34,26,4,12,4,32,30,1,3,10,32,34,6,12,6,32,28,6,8,8,34,24,1,11,0,32,34,5,7,12,32,28,3,9,6,36,26,0,-1,4,-1,28,3,7,2,32,34,7,11,0,32,34,10,12,2,32,38,1,8,12,32,30,0,9,6,32,-1,11,12,0,34,32,1,7,2,32,32,8,12,4,32,30,9,12,8,32,28,4,8,12,32,28,3,8,10,32,32,4,7,2,34,30,5,2,4,7,8,10,0,11,6,3,9,12,1,
14,23,14,0,4,10,20,18,1,4,10,20,20,5,11,6,20,14,2,11,4,20,16,8,10,12,20,14,8,13,10,20,16,0,1,2,20,24,3,9,8,20,20,2,3,6,20,14,0,5,4,20,16,12,13,0,20,20,9,12,0,20,20,0,7,0,26,20,4,9,2,20,18,1,7,4,20,22,3,10,2,26,18,3,6,2,20,18,0,13,4,20,16,1,8,2,26,18,4,6,4,20,16,6,7,12,20,14,4,13,8,20,18,10,-1,4,20,-1,13,0,9,4,2,5,10,3,6,12,8,1,11,7,
14,23,14,0,5,2,8,8,6,10,0,-1,8,1,9,2,10,6,10,11,4,8,6,1,10,0,8,10,4,12,4,8,6,0,1,2,8,8,7,8,2,8,8,4,13,2,8,8,5,11,4,8,8,5,12,0,8,8,7,-1,0,8,-1,7,13,2,10,6,8,11,2,8,6,0,3,2,-1,6,9,13,2,8,8,2,9,2,8,8,2,8,0,8,8,2,5,2,8,6,4,7,4,8,8,2,4,0,10,8,4,9,2,8,8,11,12,0,8,8,3,12,0,11,1,6,8,2,13,9,4,10,7,5,
15,23,15,5,13,8,44,46,3,5,8,44,42,5,10,4,-1,40,5,9,10,44,42,0,4,0,44,50,2,5,12,50,32,0,12,4,50,40,4,12,10,44,40,1,5,2,54,42,3,8,0,44,50,8,14,0,44,48,3,-1,6,-1,38,2,4,12,44,40,0,7,8,44,44,7,14,0,44,48,2,14,10,44,40,3,11,12,44,38,6,13,10,-1,34,7,11,6,48,38,1,13,4,44,50,8,9,0,52,44,4,14,0,52,44,8,11,10,44,38,6,12,11,5,1,0,2,7,8,10,13,9,14,3,4,
14,23,14,11,12,2,10,8,1,8,2,10,8,7,12,2,10,10,6,8,2,10,8,4,12,2,10,10,11,-1,0,10,-1,2,8,2,-1,8,5,8,2,10,8,10,13,4,10,10,1,9,2,10,8,7,10,0,14,10,5,13,0,10,10,0,4,2,10,-1,4,7,4,10,10,5,10,4,10,10,6,13,0,10,10,6,7,4,10,10,9,11,0,10,10,4,6,0,12,10,1,6,4,10,6,12,13,0,10,10,0,3,4,-1,6,5,7,0,10,12,8,5,6,10,3,9,0,11,2,4,13,12,1,7,
15,23,15,0,6,0,-1,10,9,12,2,10,8,2,6,0,14,10,1,3,4,10,10,4,11,4,-1,6,3,-1,2,-1,8,1,8,0,10,10,8,13,2,10,10,2,8,0,10,10,2,3,0,10,10,1,6,4,10,10,6,10,2,-1,8,7,14,0,10,10,8,12,0,10,10,2,7,4,10,10,9,13,2,10,8,3,7,0,10,10,1,12,0,10,10,2,11,0,10,-1,3,13,0,10,10,13,14,0,10,10,3,12,2,10,10,5,8,0,-1,10,13,10,6,7,3,0,9,14,5,4,12,8,1,2,11,
16,23,16,10,15,12,56,54,2,-1,12,56,46,5,13,8,56,52,8,11,10,-1,46,10,-1,10,56,54,6,9,6,-1,50,1,4,12,56,52,5,6,4,58,52,3,5,10,-1,46,1,10,0,64,56,0,13,0,58,56,0,11,8,56,54,2,14,12,58,44,7,12,4,58,52,14,15,0,66,56,7,14,12,56,54,0,7,6,56,52,7,-1,4,56,54,12,14,2,56,56,4,5,6,58,50,6,11,4,58,52,4,13,12,56,46,11,14,0,58,56,10,7,6,9,15,5,11,4,2,13,14,0,12,8,1,3,
16,23,16,4,8,28,136,112,14,15,32,-1,104,1,10,12,138,124,0,5,0,140,136,4,10,38,136,106,2,9,6,-1,130,8,-1,8,136,134,2,-1,4,136,138,1,6,12,136,126,1,7,16,136,122,8,10,6,136,132,5,10,18,136,122,1,12,0,136,138,0,1,28,136,118,4,12,18,140,118,7,13,24,138,112,0,3,24,136,116,6,11,8,138,128,3,8,36,138,100,3,11,40,136,98,4,15,6,136,-1,0,2,6,136,136,12,13,10,136,128,2,13,11,0,1,15,14,3,8,5,10,4,12,6,9,7,
14,23,11,1,11,6,44,48,10,13,6,52,38,2,11,12,-1,32,4,6,12,44,44,1,4,6,52,38,4,7,2,44,50,1,6,6,44,46,5,8,8,44,52,4,5,10,44,52,0,3,10,52,34,6,13,6,44,46,0,11,10,44,44,9,11,4,44,52,6,9,0,44,56,9,12,10,44,46,0,10,8,44,44,5,6,8,44,52,7,8,2,52,42,1,12,0,44,56,0,13,12,44,46,1,7,12,44,40,9,-1,8,-1,36,3,8,10,44,42,3,7,4,1,11,0,2,8,9,13,10,
14,23,14,7,10,18,168,116,1,10,28,134,146,7,8,2,134,-1,1,4,34,142,100,4,12,4,142,130,1,6,6,134,136,5,8,38,-1,96,6,-1,18,134,156,9,10,28,134,144,0,12,34,134,108,0,6,6,134,136,0,13,22,-1,112,2,4,22,134,122,4,6,40,134,106,6,7,28,134,140,4,11,14,-1,120,0,4,40,134,112,2,3,4,154,130,6,10,24,134,144,7,-1,16,134,158,6,9,0,172,134,0,3,24,134,130,2,6,16,134,128,9,3,2,12,5,1,6,7,11,0,8,13,10,4,
16,23,15,1,9,26,130,126,8,15,34,-1,96,3,9,22,134,108,12,14,40,130,128,4,8,0,130,-1,0,2,14,-1,116,6,11,12,138,118,6,9,14,130,124,5,15,12,130,126,5,6,34,130,130,9,-1,14,132,116,10,14,6,134,124,4,13,8,-1,122,0,3,2,130,132,7,10,4,130,128,3,12,26,130,112,10,-1,14,130,118,7,9,2,132,128,5,12,18,138,112,1,15,16,130,136,1,5,10,130,142,0,14,30,130,104,11,15,8,130,130,7,5,3,11,4,2,14,0,12,9,10,15,13,8,6,
13,23,13,0,3,0,10,14,10,12,0,10,12,12,-1,2,-1,8,1,5,4,10,10,2,4,2,10,12,0,5,2,10,8,10,11,4,10,12,4,6,2,14,8,0,11,2,10,8,2,12,4,10,10,11,12,4,10,12,7,12,2,10,10,5,12,2,10,12,4,7,2,10,12,0,12,4,10,10,7,10,0,12,10,1,11,0,14,10,5,11,0,10,10,5,9,2,10,-1,1,12,4,10,12,2,3,0,14,10,6,12,4,10,10,8,9,4,-1,6,9,5,3,4,12,6,7,2,10,11,1,0,8,
14,23,14,13,-1,8,38,30,4,6,0,48,38,11,13,0,38,38,0,8,6,48,32,9,10,10,38,28,2,3,4,38,34,1,8,8,38,38,4,8,6,38,42,8,12,8,38,38,5,9,6,38,32,7,13,6,-1,32,1,3,2,46,36,3,8,6,38,40,3,6,2,38,44,6,12,8,38,38,3,12,2,46,36,2,-1,0,38,38,8,10,10,38,36,0,4,12,38,36,3,5,10,38,34,5,-1,4,38,38,5,11,8,38,30,3,10,8,38,30,11,13,5,12,10,1,9,0,2,3,6,4,7,8,
14,23,14,3,8,24,92,74,8,9,12,-1,80,8,11,28,92,92,0,4,0,98,92,2,6,10,-1,82,1,12,16,92,76,0,5,8,92,84,2,4,14,92,84,1,7,8,92,90,7,12,32,92,84,1,13,30,92,84,2,5,0,92,98,4,12,22,92,86,4,8,4,92,94,2,7,24,92,92,7,10,24,98,68,0,12,6,92,86,4,11,2,120,90,10,12,38,92,60,1,5,2,92,90,5,-1,30,92,-1,5,13,6,114,86,3,4,22,98,70,8,3,0,13,10,11,2,4,12,1,7,5,9,6,
15,23,15,11,14,2,60,-1,5,6,12,60,54,4,14,12,-1,48,0,8,4,60,58,7,9,8,60,56,5,10,6,60,60,5,-1,10,-1,50,8,13,6,60,56,1,7,4,60,68,5,14,2,60,64,6,14,10,60,56,0,12,2,-1,58,2,5,6,60,66,0,14,8,60,64,7,13,8,62,52,8,9,2,64,58,8,10,8,60,64,3,11,10,-1,50,6,10,12,66,48,9,13,12,60,54,0,7,0,60,62,5,8,12,60,64,1,2,4,72,56,11,9,3,14,4,13,7,6,5,2,0,1,8,12,10,
15,23,15,6,11,0,20,18,9,11,4,18,18,2,8,2,18,18,10,12,0,24,18,13,14,4,18,16,8,13,0,20,18,3,11,2,18,18,4,11,2,18,18,6,12,4,18,20,4,5,2,18,20,4,7,4,20,14,14,-1,4,18,16,1,3,4,-1,14,7,9,4,18,16,6,13,2,18,18,5,10,0,18,24,9,-1,4,20,14,3,14,0,18,20,2,14,4,20,14,5,9,4,18,20,0,5,2,-1,16,5,11,2,18,20,9,12,4,18,20,5,4,10,9,3,14,1,8,7,0,12,13,6,11,2,
15,24,15,8,13,8,196,130,7,14,22,138,150,3,10,38,138,130,4,9,14,158,124,7,13,30,138,160,7,9,40,138,118,1,13,22,138,166,1,4,12,158,126,2,6,32,138,144,0,-1,28,-1,110,4,6,10,138,154,0,2,0,168,138,0,6,20,138,144,10,12,14,168,124,2,12,34,138,134,11,14,2,-1,136,3,7,18,168,120,5,6,38,-1,100,10,14,2,138,170,0,4,4,164,134,6,10,34,138,162,3,13,40,138,148,1,7,6,138,152,8,12,34,138,162,14,0,11,13,7,1,5,8,12,6,10,4,2,9,3,
16,24,16,2,8,6,40,-1,3,10,8,40,38,4,10,0,42,40,7,15,6,40,36,6,13,0,40,50,0,13,0,50,40,3,7,2,40,40,4,7,6,40,36,0,3,0,46,40,0,2,2,46,38,0,5,10,40,38,10,-1,0,40,42,7,14,6,42,34,11,-1,10,40,32,5,9,6,-1,34,2,-1,10,40,36,6,12,12,-1,28,3,14,6,40,36,4,14,2,40,40,11,15,10,42,30,5,15,6,40,40,1,8,4,-1,36,0,6,10,40,40,5,10,0,40,46,11,2,14,6,12,10,1,7,9,15,0,8,3,13,5,4,
16,24,16,7,14,8,50,42,5,12,2,50,48,1,-1,12,50,52,0,14,6,50,44,1,2,2,64,48,2,6,0,64,50,10,15,4,50,46,8,10,12,50,42,7,9,12,50,38,12,15,2,50,48,5,9,6,50,44,14,-1,6,50,58,6,8,4,54,46,5,11,4,50,46,2,13,8,-1,42,4,11,6,50,44,9,12,4,50,46,9,11,6,50,44,6,15,0,50,50,3,10,10,-1,40,0,6,4,50,46,10,12,10,50,48,11,14,6,50,48,4,10,2,50,48,14,3,2,8,10,11,12,7,13,1,4,15,9,6,5,0,
12,24,12,3,5,40,82,84,2,4,38,82,58,0,-1,14,82,98,11,-1,30,82,88,2,7,28,82,54,9,10,22,82,78,3,8,26,-1,56,1,7,8,82,102,0,11,8,82,74,6,10,16,82,66,4,6,12,82,70,0,3,24,82,70,3,9,12,82,84,0,10,26,82,56,4,-1,38,82,74,7,9,4,82,78,7,11,26,82,64,0,9,40,82,60,4,9,0,82,82,3,7,14,82,80,1,3,22,82,88,2,11,10,82,72,1,5,4,124,78,5,10,40,82,86,0,2,4,1,3,6,11,8,5,7,10,9,
12,24,11,5,-1,34,144,124,4,7,36,144,126,8,-1,32,144,126,0,10,24,144,130,0,8,40,144,132,3,-1,40,144,110,10,-1,20,150,124,2,7,38,144,116,5,8,36,144,146,0,3,28,144,116,1,4,38,-1,106,7,8,4,154,140,4,8,34,144,130,4,9,6,144,148,2,11,26,144,118,4,10,16,144,138,10,11,30,144,144,5,6,8,144,136,0,11,14,144,130,2,5,26,144,118,8,9,20,154,124,3,10,14,144,130,6,10,8,144,136,0,5,28,144,130,11,10,5,4,3,0,7,9,2,6,1,
13,24,13,1,6,34,136,116,3,11,10,144,126,8,9,10,144,126,1,8,24,136,128,4,10,24,136,146,8,10,30,136,132,1,9,24,136,138,3,10,28,136,140,4,7,12,136,178,0,4,6,152,130,7,-1,38,-1,98,8,12,38,136,106,10,11,14,136,130,2,5,26,152,110,4,9,20,136,140,1,4,34,136,126,3,6,20,136,132,4,5,32,136,120,2,6,4,150,132,3,9,2,136,142,6,7,40,136,150,1,2,16,150,120,10,12,26,144,110,0,3,16,136,136,2,7,5,11,12,0,6,9,1,10,3,4,8,
13,24,13,7,12,34,120,108,0,12,6,120,130,3,-1,30,126,90,4,5,30,120,124,0,6,26,132,94,11,12,4,120,126,9,11,30,120,106,0,2,8,120,122,8,11,20,120,110,4,-1,14,120,112,8,12,20,120,106,4,12,0,126,120,2,10,36,130,84,0,10,38,120,92,2,7,36,120,116,5,6,24,120,108,1,11,4,162,116,4,11,8,120,124,3,7,4,120,122,3,11,28,120,108,7,8,2,126,118,0,5,14,120,118,1,2,38,120,124,5,9,22,136,98,0,9,6,12,7,3,8,10,2,5,1,11,4,
15,24,15,0,7,30,174,188,11,14,34,174,168,5,-1,10,206,164,0,-1,36,174,188,4,14,4,174,182,0,4,8,174,188,0,6,16,196,158,2,12,38,174,150,7,-1,22,174,202,3,9,28,174,192,0,5,28,174,178,4,7,8,174,180,2,9,34,174,168,7,12,4,188,170,4,13,40,-1,134,3,10,14,174,206,1,4,22,186,152,6,-1,30,174,176,6,14,26,174,170,1,10,36,174,150,3,8,32,-1,142,9,11,16,202,158,2,4,28,188,146,10,14,6,186,168,10,14,11,13,3,7,8,5,1,4,9,12,0,2,6,
15,24,15,4,10,10,38,26,3,10,12,36,36,6,13,8,36,44,2,5,6,36,42,9,10,4,36,36,7,9,0,-1,36,5,6,12,36,42,10,14,0,36,38,13,14,6,36,42,5,13,2,36,46,0,5,0,48,36,13,-1,10,-1,26,12,14,2,-1,34,3,6,2,48,34,2,11,10,-1,26,6,14,2,36,38,1,9,10,36,32,2,4,12,36,28,0,8,10,36,38,4,9,12,36,26,1,8,2,48,34,9,14,0,36,38,2,6,0,36,40,1,4,6,36,36,8,10,3,14,1,5,4,9,2,7,0,11,6,12,13,
15,24,15,1,3,2,14,12,3,10,4,14,12,0,10,2,14,12,4,-1,2,14,12,1,7,0,14,14,13,14,2,14,14,5,10,0,14,14,7,10,0,14,14,6,10,2,-1,12,2,-1,4,14,10,3,8,2,14,14,4,9,0,-1,14,2,14,0,14,14,0,11,4,14,12,4,5,4,14,12,8,13,2,16,12,3,4,2,14,12,7,14,2,14,12,0,5,2,14,12,0,12,2,14,14,8,12,4,14,14,2,8,2,14,14,11,12,4,16,10,0,14,0,14,14,8,14,5,13,12,6,4,0,1,9,11,3,7,10,2,
15,24,15,3,8,32,180,132,6,10,14,164,182,6,14,40,164,156,1,10,14,176,150,1,7,8,176,156,13,-1,0,-1,164,2,7,10,164,166,10,14,34,164,142,7,13,18,164,176,9,11,36,-1,128,3,10,22,164,158,2,14,10,176,154,2,10,38,164,152,2,8,38,164,142,4,6,36,-1,128,1,11,8,164,176,0,11,14,-1,150,7,14,28,164,160,13,14,16,164,176,2,13,30,164,170,1,5,6,-1,158,11,12,8,184,156,1,12,20,164,164,11,13,12,164,180,8,6,0,1,13,14,4,12,9,2,10,3,7,5,11,
15,24,15,7,8,0,10,10,10,13,2,10,10,11,14,2,10,8,1,5,0,10,10,8,-1,4,10,6,5,13,0,10,10,7,11,0,10,10,0,11,4,10,8,7,13,4,10,10,11,12,0,-1,10,0,10,2,12,8,4,14,2,10,8,8,9,4,10,10,2,4,0,10,10,1,-1,4,10,6,5,7,0,10,10,8,13,0,10,10,2,7,0,10,10,2,3,2,10,10,2,10,0,10,12,6,7,2,-1,8,1,3,0,10,12,5,8,0,10,10,3,9,0,14,10,5,0,6,11,4,8,3,14,9,2,1,13,10,12,7,
14,24,14,0,9,2,38,36,2,7,12,38,34,11,-1,8,38,42,0,5,4,38,34,1,13,6,38,32,5,6,12,38,26,1,8,2,38,36,1,7,2,38,44,2,4,4,-1,34,6,11,6,38,36,5,8,6,38,32,2,5,10,38,28,2,11,10,38,38,6,13,2,38,36,9,10,8,38,30,2,10,0,38,38,10,-1,4,38,46,11,12,8,-1,30,3,7,10,-1,28,8,10,10,38,34,2,13,0,38,38,10,11,2,38,38,2,-1,10,38,42,1,11,6,38,34,5,4,1,2,11,6,12,7,10,13,0,9,8,3,
13,25,12,5,7,28,106,106,0,5,28,-1,78,1,7,36,106,110,1,8,36,106,96,3,11,14,106,98,5,9,12,112,94,8,12,18,106,114,3,5,26,106,98,2,11,28,106,102,4,7,12,118,94,6,10,8,-1,98,3,12,40,112,66,6,7,22,106,110,3,6,24,106,94,6,12,28,106,84,5,11,40,106,106,2,5,4,118,102,4,9,24,106,94,9,11,12,106,100,5,6,4,106,108,2,7,16,106,102,4,11,36,106,100,7,12,32,106,92,1,11,2,132,104,12,-1,28,106,-1,7,12,6,11,1,4,10,0,2,5,3,9,
14,25,14,2,-1,12,-1,128,0,9,20,164,120,3,4,10,142,130,7,13,18,140,130,0,12,30,140,146,0,4,22,140,142,7,12,26,140,140,1,10,16,-1,124,5,8,26,140,122,5,10,28,140,128,5,-1,36,140,126,3,11,0,140,142,3,5,40,140,136,0,7,26,140,146,5,13,28,148,112,5,11,16,140,136,8,12,30,140,132,4,10,2,140,140,12,-1,26,162,114,6,11,20,152,120,9,12,26,140,138,3,10,28,140,132,10,11,10,140,132,6,8,34,140,118,7,8,8,148,132,7,9,10,5,13,12,0,11,3,8,4,6,2,1,
15,25,13,6,13,0,14,14,2,5,2,14,12,3,-1,2,-1,12,0,7,4,16,10,7,9,4,14,12,9,14,2,14,12,0,6,2,14,14,5,13,0,14,14,4,14,4,-1,10,1,9,0,16,14,1,6,2,14,14,6,12,4,14,14,0,1,2,14,14,2,6,4,14,12,2,14,0,14,14,12,14,2,14,16,5,11,2,14,-1,9,13,4,14,14,5,8,0,18,14,10,13,2,-1,12,6,9,0,14,14,0,2,4,14,12,8,12,4,14,14,0,12,4,14,14,2,3,0,14,-1,0,5,9,8,13,6,7,1,14,2,4,10,3,
15,25,15,9,10,26,102,90,11,12,30,110,72,4,10,6,-1,96,5,13,32,-1,70,1,6,34,102,80,2,-1,38,102,88,1,9,26,102,84,6,10,16,110,86,0,8,40,102,104,6,9,4,102,106,8,12,10,102,100,1,2,6,110,96,9,13,2,126,100,8,9,30,102,104,7,8,0,110,102,2,10,0,110,102,0,12,18,102,94,0,3,6,-1,96,2,14,4,-1,98,10,12,38,102,82,7,10,18,102,92,9,11,22,102,88,0,10,12,102,100,2,12,32,102,82,13,-1,0,126,102,12,6,14,8,1,4,0,10,11,7,9,5,13,2,3,
16,25,16,4,9,30,98,86,1,5,10,118,88,2,15,8,98,100,1,2,14,98,106,0,7,8,98,-1,2,12,0,108,98,5,10,34,98,98,1,14,34,98,90,2,7,32,98,90,7,15,32,98,88,9,13,22,116,76,5,7,26,98,92,12,13,18,98,98,12,15,2,98,106,8,15,0,-1,98,3,11,14,-1,84,3,-1,28,98,122,4,7,0,118,98,0,6,28,-1,70,10,15,2,132,96,9,-1,32,98,118,3,7,4,98,146,1,15,14,98,104,4,14,12,124,86,4,15,10,116,88,7,15,1,5,4,10,11,9,14,3,12,8,2,0,6,13,
13,25,13,8,9,28,112,106,4,9,4,134,108,4,12,0,138,112,5,-1,32,-1,80,6,9,34,112,110,1,11,30,112,110,0,6,14,112,106,10,12,12,112,126,1,10,10,112,110,0,2,40,112,118,2,4,6,134,106,6,10,36,112,106,7,8,28,112,92,4,10,38,112,124,2,6,26,112,108,3,12,30,112,120,2,3,20,112,120,4,6,36,112,114,0,10,0,120,112,5,8,20,120,92,7,10,26,112,100,2,12,38,112,106,3,11,26,140,86,5,6,2,120,110,1,7,22,120,90,6,11,10,3,2,5,12,4,0,1,7,9,8,
15,25,15,12,-1,12,144,132,0,-1,0,144,144,5,11,32,144,120,10,13,4,144,162,1,3,26,144,120,5,8,0,144,146,11,13,20,152,124,1,7,16,144,132,0,4,18,144,136,4,7,16,144,130,3,8,38,144,122,1,5,20,144,142,0,9,6,154,138,0,12,12,144,132,10,-1,18,144,148,3,13,18,144,130,1,13,10,144,138,4,5,26,146,118,1,8,2,146,142,2,10,18,-1,126,0,14,14,-1,130,1,9,26,144,128,3,7,12,146,132,4,13,28,144,126,0,6,34,-1,110,10,4,8,2,0,11,14,7,6,13,3,5,12,9,1,
16,25,16,9,11,0,4,2,0,6,2,2,0,9,12,2,2,2,5,14,0,4,2,2,14,0,2,2,6,13,2,2,0,3,15,0,2,2,1,12,0,2,4,8,13,0,2,2,1,2,0,2,2,11,15,0,2,2,4,13,4,2,2,8,14,0,2,2,10,11,0,-1,2,11,12,2,2,2,7,12,0,-1,2,5,-1,4,2,-1,0,14,0,2,2,1,13,2,2,2,3,13,0,2,2,1,11,0,2,2,1,4,4,2,2,4,15,0,6,2,1,14,0,2,2,0,5,2,2,2,8,12,4,13,2,11,0,9,15,5,14,3,7,6,1,10,
13,25,13,2,6,26,112,112,2,10,36,112,102,3,7,20,132,92,9,11,10,132,102,6,10,10,112,108,2,8,26,118,86,2,12,6,112,112,0,5,32,112,136,7,11,40,112,92,1,6,2,154,110,6,8,32,112,86,6,12,24,112,106,5,-1,14,146,98,0,1,34,112,120,4,9,40,112,90,0,10,14,112,116,0,12,24,112,110,7,-1,32,112,114,3,10,22,112,110,11,12,34,112,106,10,12,16,118,96,9,12,4,112,126,5,12,30,112,116,0,4,24,130,88,7,10,36,112,114,10,6,11,12,0,4,2,9,7,1,5,8,3,
14,25,14,0,2,6,128,122,4,10,32,128,132,1,11,16,128,120,2,5,22,128,106,8,11,28,128,124,1,5,34,128,94,7,8,14,-1,114,4,12,26,128,126,8,12,20,128,110,4,9,38,128,114,0,1,18,128,110,2,6,32,128,118,4,8,16,128,128,10,13,2,128,128,1,13,22,128,126,6,-1,36,128,-1,4,11,4,136,124,6,13,20,130,108,9,13,40,128,112,0,4,14,128,122,4,6,22,128,122,8,10,4,130,124,6,9,38,128,92,3,8,12,-1,116,9,12,34,130,94,5,8,13,12,7,6,11,0,9,10,3,4,1,2,
15,25,15,0,1,0,18,16,4,8,0,18,16,0,10,4,16,18,6,11,2,-1,14,3,5,0,16,16,0,12,2,16,16,1,6,4,16,18,4,9,4,16,18,9,14,0,16,16,3,9,0,16,16,1,8,0,16,18,2,8,4,-1,12,4,12,0,18,16,7,14,0,20,16,7,12,4,16,18,3,6,0,16,22,5,14,0,16,16,6,12,4,16,18,9,10,2,18,14,4,13,4,-1,12,0,5,4,16,18,5,7,4,16,16,10,14,4,16,14,8,-1,4,-1,12,10,12,4,16,18,7,1,6,3,5,13,9,2,14,12,0,11,10,8,4,
14,26,14,4,10,16,142,122,3,9,10,138,132,5,9,12,138,134,2,11,24,148,114,2,-1,24,138,124,1,8,14,-1,124,9,10,36,138,134,11,-1,10,138,138,0,9,20,138,126,1,4,14,138,128,11,13,24,138,118,1,9,2,138,140,3,7,20,142,118,1,7,40,138,130,7,9,24,138,128,2,9,36,138,112,10,11,6,138,136,7,13,16,142,122,10,-1,16,138,136,9,12,14,142,124,1,12,16,138,126,6,7,10,144,128,1,10,14,138,136,1,6,24,138,120,0,5,24,146,114,4,11,14,138,128,5,7,1,8,0,12,13,6,9,11,3,4,10,2,
15,26,15,12,-1,4,14,10,0,9,0,14,14,5,12,2,14,12,1,6,4,14,14,2,12,4,14,12,2,9,0,14,14,2,14,0,14,14,6,9,2,14,14,4,11,0,14,14,5,13,4,14,10,2,7,2,-1,12,3,-1,2,14,12,0,2,4,14,14,0,11,0,14,14,3,6,0,14,14,2,6,0,14,14,4,10,2,14,12,12,14,2,14,12,9,10,2,14,12,3,10,4,14,12,8,14,2,16,12,0,8,4,14,12,0,1,0,18,14,3,5,0,14,14,0,13,4,14,10,4,14,2,14,14,3,14,6,11,12,2,7,5,0,10,9,4,1,13,8,
15,26,15,2,8,10,122,112,1,13,32,122,114,0,8,14,122,108,0,7,12,122,122,2,6,4,122,128,3,7,38,122,94,12,-1,36,-1,86,0,9,4,122,120,1,10,32,122,102,11,13,0,122,142,8,9,12,122,112,7,13,16,122,122,1,14,28,122,124,0,1,14,122,110,4,14,14,-1,108,9,13,0,138,122,1,7,12,124,110,6,11,16,122,126,3,6,30,132,92,0,10,20,122,102,6,12,4,122,-1,2,10,16,122,106,5,11,0,-1,122,3,14,36,122,116,7,11,34,122,122,7,10,20,122,104,0,4,6,1,10,5,2,9,14,12,3,8,13,7,11,
14,26,14,5,9,12,24,26,7,11,2,24,24,9,10,10,24,26,8,11,10,24,22,5,-1,0,24,28,4,10,0,28,24,8,-1,12,24,22,0,4,2,28,22,4,6,4,28,20,4,5,0,28,24,0,10,6,24,22,10,11,0,26,24,7,10,0,26,24,3,-1,12,24,16,9,13,4,28,20,1,7,8,24,24,0,13,8,24,20,1,8,2,32,22,4,12,4,-1,20,1,11,10,24,24,7,9,2,24,26,2,9,8,24,26,2,3,8,28,16,2,10,10,24,24,2,6,4,24,24,1,6,4,24,28,3,0,13,11,8,5,1,2,10,12,9,4,7,6,
14,26,14,3,5,8,36,30,10,-1,8,36,38,3,6,2,36,40,0,4,12,36,32,5,10,6,36,38,6,9,12,36,30,10,11,10,36,36,0,12,0,44,36,12,13,0,44,36,3,7,4,-1,32,4,9,8,38,28,4,12,6,36,32,8,12,12,36,34,2,6,6,-1,30,1,3,2,36,36,1,-1,6,36,38,3,10,12,36,34,1,12,8,38,28,8,10,8,44,28,5,13,8,36,36,8,-1,12,36,32,6,10,10,36,36,4,11,10,36,28,5,11,2,38,34,1,5,10,36,28,5,9,2,36,36,3,9,5,2,11,7,4,0,1,6,12,8,13,10,
16,26,16,2,13,0,54,54,0,11,4,56,50,10,13,10,54,52,0,4,2,-1,52,0,14,6,-1,48,5,7,8,-1,46,9,-1,10,54,50,9,10,8,56,46,0,10,4,54,52,12,-1,12,54,52,3,12,10,54,50,11,12,2,54,54,0,-1,0,54,60,13,15,6,54,54,6,15,8,60,46,0,3,8,54,48,6,11,12,54,52,8,9,12,54,44,1,2,12,54,42,1,13,12,54,42,6,7,8,54,56,6,12,10,54,50,2,3,2,56,52,12,13,2,56,52,7,8,6,54,58,8,13,2,56,52,12,11,0,1,6,15,3,14,7,8,9,2,13,10,5,4,
16,26,16,3,9,4,-1,16,12,13,4,20,18,10,13,0,20,20,2,15,2,20,18,12,15,4,20,18,10,14,2,20,18,6,15,2,20,18,7,12,4,-1,16,3,-1,2,20,18,3,5,2,-1,18,2,8,2,20,18,1,8,2,20,18,13,-1,2,20,18,8,13,4,20,20,0,11,2,20,18,15,-1,2,20,18,10,11,0,20,20,6,10,4,20,18,1,6,0,20,20,4,10,0,-1,20,1,14,4,20,16,2,12,0,20,22,1,3,2,20,18,10,15,0,20,20,0,10,2,20,18,1,10,2,20,18,11,1,14,10,8,9,0,3,6,7,15,4,5,2,13,12,
13,26,13,5,10,6,118,100,4,6,30,106,102,3,4,30,106,94,4,5,8,108,98,11,12,12,114,94,3,11,18,106,96,5,11,30,106,112,10,11,38,106,106,7,10,36,106,82,2,7,26,106,98,9,-1,32,106,82,3,9,20,114,86,2,5,10,108,96,1,9,40,106,98,1,8,38,106,90,6,12,10,106,104,6,-1,20,114,86,0,11,10,106,112,5,8,8,122,98,4,7,28,106,80,1,5,8,128,98,0,2,6,106,102,3,8,28,106,94,5,12,34,106,100,5,7,26,106,88,0,7,14,108,92,12,9,1,8,11,3,5,0,2,10,6,4,7,
14,26,14,0,7,0,2,2,6,13,2,2,2,6,7,4,2,2,4,12,4,2,2,10,12,0,2,2,6,10,2,2,2,5,8,4,2,0,3,4,2,2,2,3,7,0,2,2,1,10,0,2,2,3,13,0,2,2,2,13,2,2,2,6,9,0,2,2,1,13,0,2,2,9,13,0,2,2,4,6,2,2,2,1,2,4,2,2,2,4,2,2,2,4,8,0,2,2,6,12,0,2,2,5,6,2,4,0,0,2,0,4,2,1,11,0,-1,2,8,12,0,2,2,0,4,0,2,2,3,-1,0,2,-1,4,12,13,5,11,10,6,9,3,2,1,8,0,7,
15,26,15,1,14,12,208,190,3,13,38,202,174,4,11,24,202,188,2,5,34,202,182,0,2,26,202,190,7,8,0,208,202,7,13,4,202,204,0,5,8,202,208,8,9,8,202,204,1,11,38,202,194,9,13,18,202,202,3,9,38,212,164,4,5,14,202,194,1,4,36,202,196,5,13,0,208,202,4,12,2,208,200,1,10,40,-1,162,8,14,6,202,202,6,12,36,-1,166,4,7,24,202,190,0,-1,34,-1,168,8,13,12,202,204,5,7,18,202,204,2,11,36,212,166,2,14,40,202,172,1,12,4,208,198,1,4,12,9,11,5,13,10,3,2,8,7,6,14,0,
15,27,15,11,12,22,140,130,9,12,36,140,128,10,11,12,140,140,4,10,34,140,138,5,-1,6,154,134,2,5,10,140,142,1,11,38,140,120,8,13,26,-1,114,2,4,36,140,142,0,7,40,-1,100,0,6,14,140,-1,8,11,10,152,130,4,9,4,164,136,11,14,12,140,156,3,4,26,140,140,3,14,34,140,142,1,8,34,140,122,5,12,8,152,132,5,6,34,140,134,8,9,34,140,136,6,14,16,168,124,10,-1,22,140,132,4,5,0,140,164,1,5,18,156,122,3,8,0,152,140,2,10,12,152,128,3,10,10,140,142,3,12,6,14,2,8,5,1,10,9,0,4,11,13,7,
14,27,14,3,5,4,10,6,6,8,2,12,8,5,-1,4,10,6,6,10,2,10,10,1,7,4,10,6,13,-1,2,10,8,2,4,2,10,8,4,-1,2,10,8,12,13,0,10,10,8,13,2,10,10,3,12,2,10,8,7,12,4,10,6,7,9,0,10,10,0,1,2,10,8,0,6,4,10,8,6,13,2,10,10,0,11,4,10,8,1,12,0,10,10,1,11,0,10,10,1,4,4,10,6,3,10,4,10,8,7,11,4,10,6,10,13,0,12,10,0,2,0,10,10,11,13,4,10,10,4,9,0,10,10,9,12,4,10,6,10,2,9,7,12,11,8,1,5,3,6,4,13,0,
15,27,15,0,6,4,14,12,11,14,4,-1,10,7,10,2,14,12,3,5,2,14,14,3,11,0,16,14,2,8,2,14,12,3,8,2,14,14,2,7,4,14,14,2,3,4,14,14,0,5,4,14,10,6,11,0,16,14,4,-1,2,-1,12,5,13,0,14,14,7,13,2,14,12,8,9,2,14,12,2,4,0,14,14,5,11,2,14,14,4,10,2,14,12,5,6,2,14,14,3,6,2,14,14,4,7,2,14,14,9,13,4,14,12,3,4,4,14,14,4,12,0,-1,14,9,10,2,14,12,0,2,2,14,12,1,5,0,-1,14,11,12,9,5,2,4,3,14,1,8,13,7,0,6,10,
15,27,14,5,9,26,168,178,6,9,34,168,178,0,11,16,168,168,0,1,4,172,164,5,6,12,172,156,8,13,38,172,130,6,13,34,168,148,4,11,12,184,156,1,14,26,168,164,3,5,24,168,160,0,4,24,168,164,9,11,10,168,194,6,14,10,168,162,6,11,18,168,168,6,12,38,168,158,5,13,36,168,136,7,-1,30,168,190,9,10,38,-1,130,7,8,40,168,156,2,8,36,168,136,1,12,28,168,144,4,-1,38,168,182,12,14,20,172,148,5,11,26,168,168,3,4,0,184,168,0,7,12,196,156,0,2,32,172,136,13,7,1,8,0,6,9,14,2,3,11,10,12,5,
15,27,15,6,8,14,-1,140,13,-1,12,154,152,4,7,28,154,148,4,9,12,188,142,2,3,10,160,144,3,11,10,154,150,9,13,40,154,148,1,7,18,154,148,5,12,30,154,136,4,12,10,154,156,2,7,16,166,138,1,12,2,154,164,3,12,18,154,148,4,14,10,154,148,2,11,6,154,154,10,11,38,-1,116,5,13,26,154,140,12,-1,8,164,146,1,4,0,154,158,2,13,8,154,158,11,12,38,154,158,2,5,22,166,132,2,4,40,154,156,1,14,6,158,148,5,8,24,154,-1,0,12,34,154,130,0,13,28,164,126,1,9,8,4,0,7,12,6,10,14,13,3,11,2,5,
16,27,16,1,12,2,78,110,2,13,16,78,88,10,12,2,-1,76,2,15,8,78,72,5,14,12,78,96,1,4,24,78,82,8,13,2,78,104,4,13,20,78,84,3,4,30,78,80,2,3,12,78,96,9,13,10,-1,68,13,15,34,78,88,8,-1,30,78,124,1,2,24,78,86,7,11,38,78,70,7,14,20,108,58,7,13,22,78,88,0,11,0,78,80,6,15,28,78,52,4,15,4,104,74,7,-1,36,78,118,0,2,10,78,70,2,11,8,80,70,0,6,26,80,52,3,5,4,108,74,1,8,4,106,74,3,12,24,78,88,10,7,1,13,4,11,15,9,0,2,8,12,3,5,14,6,
15,27,15,10,13,22,186,172,1,13,12,188,174,2,5,40,186,164,8,11,2,186,184,3,6,12,186,174,3,14,22,186,172,11,14,8,186,178,9,10,6,194,180,10,12,36,186,186,6,7,28,186,166,6,8,12,186,174,1,-1,28,-1,158,9,13,10,186,178,2,7,20,194,166,3,12,12,186,174,2,6,8,186,186,10,14,28,186,176,8,14,32,186,180,3,8,26,186,178,5,9,36,186,152,1,5,32,188,154,2,4,28,-1,158,0,12,36,186,158,0,3,40,186,154,0,9,40,186,164,12,14,18,186,168,0,2,28,194,158,9,10,14,7,0,4,8,1,3,5,12,2,13,6,11,
15,27,15,7,13,2,12,10,8,12,0,12,12,0,10,2,12,12,3,10,0,12,12,3,5,0,12,12,4,13,4,12,12,10,-1,4,12,12,2,7,4,12,8,5,14,4,12,12,12,13,0,12,12,5,8,0,12,12,7,14,4,12,10,0,9,2,12,12,8,14,0,14,12,7,10,2,12,10,4,7,4,12,10,1,4,4,12,10,11,13,4,12,10,3,-1,0,16,12,8,11,2,14,10,6,13,4,-1,8,7,9,2,12,10,1,3,2,14,10,5,9,0,12,12,0,4,0,14,12,2,9,2,12,10,2,4,2,12,12,7,0,1,10,4,6,13,5,11,8,12,2,9,14,3,
16,27,16,4,8,10,40,44,13,-1,8,40,42,6,-1,2,40,48,6,10,0,40,42,3,11,6,40,40,9,13,4,42,36,7,9,4,40,38,5,8,0,42,40,2,11,6,-1,34,4,13,6,40,42,12,15,4,42,36,6,13,6,40,40,0,4,12,40,36,6,9,8,40,36,10,13,0,42,40,0,11,10,42,30,3,7,2,40,40,8,11,8,40,40,5,15,8,40,34,5,6,8,40,40,3,13,0,42,40,4,14,12,-1,28,4,12,12,40,42,6,11,0,42,40,1,8,6,40,36,1,7,4,42,36,0,12,6,40,36,11,9,4,12,2,13,1,10,3,14,0,7,8,6,15,5,
14,27,14,11,13,0,140,126,6,12,40,126,130,7,13,40,126,120,1,-1,8,126,134,1,4,26,126,120,9,11,14,126,126,3,13,16,138,110,5,12,24,126,116,4,12,38,126,130,10,11,2,126,144,5,10,40,126,124,4,11,10,126,136,4,6,0,142,126,9,12,20,140,106,1,10,14,142,112,4,-1,14,126,128,0,4,12,126,-1,7,8,32,138,94,7,10,38,126,122,10,-1,32,126,120,8,13,26,126,112,3,11,30,126,110,5,13,4,140,122,0,2,40,-1,86,3,7,34,126,104,6,10,8,126,134,6,8,26,126,122,13,10,2,11,8,1,7,0,12,5,4,6,3,9,
14,28,14,2,6,2,14,14,1,8,0,14,14,6,-1,4,14,14,5,12,4,14,14,6,7,0,16,14,7,13,4,14,10,1,12,0,14,14,4,9,4,-1,10,2,5,2,16,12,10,11,0,14,14,2,10,4,14,12,11,13,2,14,12,11,12,2,14,12,1,7,0,14,14,5,7,4,14,14,1,3,2,14,14,2,12,2,14,14,0,8,4,-1,10,4,10,4,14,12,3,8,0,16,14,13,-1,4,14,14,5,6,2,14,14,3,4,2,14,14,2,8,2,14,14,8,10,2,14,12,6,12,2,14,14,2,4,0,14,16,4,8,2,14,14,2,13,7,12,0,5,6,1,10,11,4,3,9,8,
15,28,15,11,13,2,10,10,1,13,2,10,8,1,4,4,10,10,4,9,2,10,12,5,11,4,-1,6,1,2,4,10,8,11,-1,4,10,10,6,12,0,14,10,1,6,4,10,10,4,14,0,14,10,7,11,0,10,14,4,6,0,10,14,0,10,0,12,10,0,11,0,10,12,13,14,4,10,12,3,11,4,10,10,12,-1,2,14,8,4,13,4,10,12,1,10,2,10,8,1,14,4,10,10,8,10,0,14,10,2,13,0,12,10,6,8,2,10,12,0,9,4,10,10,7,9,0,14,10,8,12,4,10,12,10,13,0,10,10,3,12,2,14,8,12,5,14,6,3,4,7,13,11,1,10,8,0,9,2,
16,28,13,1,2,18,140,134,10,14,6,140,146,5,8,16,164,124,9,15,28,140,116,7,8,0,166,140,1,11,12,140,148,12,13,24,148,116,4,11,18,140,146,3,8,40,140,112,2,11,14,140,146,6,9,36,140,128,0,-1,20,140,140,6,13,24,140,124,3,15,40,144,100,8,14,4,140,148,4,6,38,140,148,2,-1,12,140,132,7,12,34,140,136,3,12,32,140,116,6,7,30,140,136,2,6,0,148,140,0,2,22,140,148,1,10,32,152,108,9,-1,24,144,116,2,3,28,140,116,0,4,4,160,136,5,10,38,140,126,4,10,26,140,134,12,2,4,10,1,9,7,5,15,0,13,6,3,
16,28,15,3,14,0,154,136,9,10,2,136,136,9,15,26,136,130,8,13,40,136,128,9,13,32,136,142,7,10,12,138,124,7,9,20,136,126,5,8,34,138,102,12,15,2,-1,134,0,1,22,-1,114,4,13,16,-1,120,0,6,4,136,156,2,14,12,136,152,6,8,6,136,142,5,15,12,136,126,6,11,30,-1,106,2,7,26,136,138,9,14,0,136,154,0,7,22,136,138,2,-1,20,-1,116,0,2,26,136,144,2,9,40,136,148,13,15,14,136,134,7,15,18,136,120,8,9,16,136,122,3,5,36,136,118,6,13,14,136,134,6,7,20,136,134,14,6,15,0,5,7,13,8,10,2,1,12,4,3,11,
16,28,16,5,14,36,170,142,6,14,20,170,154,1,9,14,172,156,7,14,10,174,160,5,11,16,170,166,0,15,38,170,160,1,15,22,170,150,6,15,30,172,140,15,-1,18,170,170,4,15,38,180,132,11,12,2,170,170,2,-1,24,170,150,12,13,6,172,164,6,7,8,170,164,11,13,36,170,166,7,11,14,170,158,3,-1,10,170,170,10,11,14,180,156,3,4,38,170,142,9,15,10,170,164,5,-1,4,170,170,3,8,24,-1,146,5,9,6,170,168,0,12,36,170,158,9,13,6,170,166,0,5,10,194,160,10,12,24,170,156,2,15,24,174,146,1,12,6,8,11,10,0,13,2,7,4,15,14,5,3,9,
14,28,14,1,2,8,30,26,7,10,6,30,24,0,9,10,30,20,2,4,0,34,30,0,11,6,30,24,13,-1,2,30,36,5,13,6,30,24,1,3,10,30,20,6,12,4,34,26,9,13,4,30,26,0,4,6,30,28,5,6,8,30,26,1,7,2,30,28,5,8,0,30,30,7,13,6,30,24,3,9,12,30,18,8,10,0,30,30,10,13,6,30,24,7,11,6,30,24,3,7,12,30,22,4,6,10,30,30,0,12,6,30,28,10,11,0,30,30,4,9,10,30,26,1,13,10,30,26,1,6,12,30,22,1,12,8,30,26,5,-1,12,30,26,5,7,11,1,0,9,4,13,8,10,2,3,6,12,
15,28,11,1,12,0,38,36,3,6,10,36,-1,5,8,2,36,36,1,8,2,36,36,0,9,6,36,38,7,13,6,38,30,7,9,6,36,36,2,5,8,36,38,0,12,8,36,38,7,11,2,36,36,5,14,0,36,38,2,13,8,36,38,4,14,6,38,30,0,8,2,36,38,4,7,12,36,34,12,-1,10,36,28,0,6,10,40,26,4,11,4,36,34,10,13,10,36,28,2,8,8,36,40,0,10,6,36,34,11,-1,10,38,26,8,9,0,42,36,8,12,4,36,36,6,7,12,36,28,10,12,4,38,32,0,7,10,36,38,7,14,4,36,34,7,10,14,0,11,1,8,13,9,6,4,
14,28,14,2,13,12,38,38,0,2,10,38,32,0,1,4,38,38,1,3,4,38,46,4,8,4,38,42,1,4,12,38,34,6,-1,6,38,42,6,10,12,38,34,4,13,2,38,44,9,12,10,48,28,1,10,12,38,34,2,11,4,42,34,6,12,12,38,40,2,5,8,38,40,5,13,2,46,36,1,8,8,42,30,4,6,0,46,38,4,12,2,38,44,5,12,6,38,40,8,11,2,38,40,0,10,4,46,34,9,-1,12,38,36,3,5,12,38,38,3,-1,8,38,42,2,12,12,38,42,1,5,12,38,34,6,13,6,38,40,3,7,10,-1,28,7,0,3,9,6,5,4,10,2,11,8,1,12,13,
15,28,15,3,13,4,8,4,1,4,2,10,6,1,9,4,8,6,4,5,2,8,8,4,9,0,8,10,1,8,4,8,6,0,10,0,8,10,5,7,4,8,8,7,8,0,8,8,7,9,2,8,8,0,8,4,8,8,9,14,0,8,10,4,6,4,8,8,2,7,2,8,6,0,14,0,10,8,7,12,2,8,8,8,14,4,8,8,6,12,0,10,8,5,12,0,8,8,9,-1,2,10,6,3,5,0,8,8,8,10,0,8,8,2,3,4,8,6,10,-1,4,8,6,6,11,4,8,6,2,13,2,8,6,10,12,0,8,8,2,11,0,10,8,1,7,12,2,10,0,9,3,14,6,8,4,13,5,11,
16,28,16,1,12,36,128,128,6,15,36,128,122,10,14,20,128,128,0,7,0,158,128,13,14,26,128,134,9,12,30,128,100,3,7,22,128,114,9,-1,2,130,126,7,10,10,128,120,11,12,34,128,110,4,12,22,128,108,1,15,10,128,120,11,15,10,144,118,8,15,10,128,120,6,7,2,158,126,1,7,4,130,124,2,13,12,-1,116,8,13,20,130,108,12,14,8,128,136,10,-1,34,130,94,7,14,14,128,134,4,13,20,130,108,9,14,36,128,108,0,15,40,128,124,3,12,12,136,116,12,13,24,128,128,0,13,34,128,124,5,14,12,-1,116,15,9,7,2,14,0,12,1,6,13,10,11,8,4,3,5,
16,28,16,1,8,12,30,30,13,14,10,30,28,3,13,10,30,28,3,14,0,30,30,1,7,6,30,24,4,11,0,36,30,0,5,2,30,36,12,-1,12,30,34,10,15,2,36,28,6,8,2,30,28,2,4,10,-1,20,7,12,12,30,30,6,-1,0,30,46,5,15,0,38,30,7,8,6,30,24,10,11,10,30,26,6,12,4,30,34,3,6,2,30,28,4,9,4,30,34,9,11,10,30,34,9,12,6,30,34,4,6,10,30,32,0,12,0,38,30,5,9,6,30,32,5,8,6,30,34,1,14,0,30,30,4,15,2,36,28,9,13,8,38,22,3,9,1,6,2,0,10,13,4,5,11,8,15,12,14,7,
16,28,16,5,7,40,186,176,7,14,20,186,180,9,15,8,186,178,9,-1,40,186,186,5,15,34,186,182,2,4,12,186,188,0,8,10,188,176,9,12,0,208,186,4,14,8,200,178,2,7,10,194,176,6,9,32,198,154,1,2,14,194,172,3,11,26,186,160,2,14,16,186,190,7,15,14,186,172,2,10,40,-1,146,8,11,4,186,184,5,13,38,186,148,3,12,28,186,180,7,-1,18,186,180,2,-1,36,186,170,7,13,28,186,158,6,-1,32,186,166,0,11,8,186,180,3,9,6,186,180,1,9,38,186,156,5,11,24,186,162,12,-1,32,186,186,7,4,1,11,14,3,9,6,13,10,12,15,0,8,5,2,
16,28,16,2,-1,40,134,156,3,10,0,134,148,4,15,20,134,128,1,5,2,148,132,2,15,16,134,136,1,4,14,134,144,8,13,34,134,114,1,2,28,134,120,4,11,32,134,130,9,-1,18,134,178,5,15,30,134,134,7,15,22,134,126,5,11,12,148,122,3,8,0,148,134,8,11,30,134,118,5,6,14,-1,120,4,5,38,134,142,0,15,22,-1,112,1,8,38,134,132,12,14,18,182,116,4,14,38,134,144,10,11,30,134,118,8,12,26,134,156,2,10,30,148,104,4,13,22,148,112,8,10,14,134,134,2,9,4,134,144,7,9,14,148,120,11,10,13,2,4,0,9,12,5,3,14,7,15,6,1,8,
16,28,16,5,7,0,16,16,2,9,4,-1,12,1,12,4,-1,12,4,5,4,16,14,8,13,0,16,16,8,-1,0,16,16,2,15,2,16,-1,0,11,0,16,16,7,13,2,16,14,0,-1,0,16,16,4,14,2,16,14,0,6,2,16,14,3,12,0,18,16,3,4,4,16,16,10,13,2,16,14,7,14,4,16,12,0,10,4,16,14,8,12,0,16,16,5,10,0,16,16,6,8,2,16,14,4,6,2,16,14,8,10,4,16,14,3,6,4,16,14,13,15,2,16,14,6,15,4,16,12,11,14,4,16,14,11,12,0,16,16,5,15,4,16,12,10,3,5,0,6,13,4,14,11,1,9,2,12,15,8,7,
16,29,16,3,7,2,6,6,3,10,4,-1,2,1,5,2,6,4,7,13,0,8,6,2,3,0,6,8,11,15,2,6,6,1,4,2,6,4,0,5,0,8,6,0,7,4,6,6,1,11,4,6,4,5,6,0,-1,6,0,11,0,8,6,1,9,2,6,6,5,12,0,6,6,0,2,0,8,6,4,5,0,6,6,1,14,2,6,6,0,13,2,6,6,14,15,0,8,6,4,13,4,6,6,8,13,0,6,8,0,8,4,6,6,12,15,4,6,6,4,8,4,6,6,3,4,4,6,6,8,9,0,8,6,8,15,0,6,8,1,2,4,6,4,4,12,0,6,6,7,1,10,4,13,11,12,5,14,9,0,3,8,15,6,2,
16,29,16,4,11,4,42,42,7,11,12,42,40,5,12,2,44,40,5,7,6,42,40,0,5,10,42,36,5,13,12,42,38,2,7,0,44,42,14,-1,6,-1,36,2,5,4,42,40,7,15,0,48,42,4,10,2,46,40,1,6,12,-1,30,3,12,0,42,46,12,14,10,42,42,1,14,6,42,-1,4,14,2,42,44,3,10,4,42,42,3,13,2,50,40,10,13,10,42,40,0,11,10,46,32,7,12,0,44,42,9,10,8,42,40,9,12,2,46,40,7,10,10,42,42,8,-1,6,-1,36,2,11,12,42,40,10,11,8,42,40,9,14,2,42,44,11,15,8,42,40,3,13,11,4,1,10,0,6,8,5,7,15,12,9,2,14,
15,29,15,1,12,4,44,40,2,4,2,44,42,14,-1,12,44,36,4,11,4,44,42,4,10,6,44,38,1,14,4,44,40,2,14,6,44,38,6,13,6,44,38,6,9,6,44,42,5,10,10,44,34,3,14,12,44,40,0,6,2,44,42,3,5,6,44,44,6,8,12,-1,32,3,12,10,44,42,3,4,12,44,42,2,11,12,44,40,9,11,0,48,44,0,5,12,44,32,4,-1,4,48,40,0,11,12,44,40,0,10,10,44,40,5,11,10,44,38,3,9,6,44,44,1,2,4,44,42,3,7,0,52,44,10,11,4,44,42,7,13,10,44,42,12,13,4,44,40,12,11,2,9,3,7,5,1,0,13,4,10,14,8,6,
15,29,15,6,9,40,80,62,8,10,14,80,76,1,10,12,80,78,5,10,10,80,76,1,7,32,80,84,7,-1,40,80,78,4,11,16,80,70,5,12,22,80,60,7,9,10,80,80,0,8,18,80,90,0,11,8,80,90,5,11,16,82,64,1,-1,16,80,82,1,8,4,80,86,0,2,16,80,114,12,-1,30,80,74,1,4,38,80,74,8,9,8,90,72,0,-1,10,98,70,2,14,24,-1,56,1,2,28,80,102,3,13,0,-1,80,1,5,32,80,68,7,11,0,80,82,7,12,4,82,76,1,6,14,90,66,4,10,4,86,76,3,4,2,80,-1,6,11,18,80,72,0,3,6,13,5,2,9,8,7,14,4,12,10,11,1,
16,29,16,0,2,0,16,14,2,12,6,14,10,5,15,10,14,14,8,15,0,16,14,8,10,2,14,14,6,14,0,16,14,12,13,0,16,14,12,-1,2,14,18,11,12,4,14,14,10,13,0,16,14,1,9,4,16,10,3,6,2,-1,12,6,12,8,14,14,9,-1,4,14,16,1,15,4,14,12,5,10,2,14,14,0,11,6,14,10,6,11,0,16,14,7,15,4,14,12,4,14,4,16,10,8,13,12,14,14,5,13,10,14,14,4,12,8,14,10,5,7,4,16,10,2,13,6,14,10,14,15,8,14,14,0,4,0,14,16,13,14,0,16,14,2,9,4,14,12,4,8,13,1,11,2,10,14,0,15,12,6,3,7,5,9,
15,29,15,7,14,0,4,6,0,7,2,4,4,4,5,4,4,4,6,13,2,4,4,3,9,2,4,4,12,14,0,4,6,8,14,0,6,4,5,14,0,8,4,2,13,0,4,6,4,10,0,4,4,9,14,0,6,4,10,13,0,4,4,13,14,0,4,4,6,8,4,4,4,4,8,2,4,4,4,14,0,4,4,11,14,2,4,4,11,-1,2,6,2,0,12,0,6,4,8,11,0,4,6,4,12,4,4,4,5,6,4,4,4,13,-1,4,4,2,3,7,0,6,4,6,9,4,4,4,0,9,4,4,4,1,13,2,-1,2,2,6,0,6,4,2,10,2,4,4,8,4,11,5,14,7,9,2,10,13,0,1,12,6,3,
15,29,15,9,14,0,56,46,8,13,4,46,42,2,7,6,46,42,3,9,6,46,44,9,13,0,46,46,1,-1,6,46,40,3,14,12,46,44,1,12,6,46,40,0,10,8,46,42,6,12,10,46,36,0,3,0,50,46,6,9,10,46,36,2,9,8,46,44,8,11,10,-1,36,5,7,10,48,36,2,4,2,50,44,3,13,6,46,44,5,10,10,46,40,1,10,6,46,40,8,10,4,46,42,6,-1,12,46,36,0,7,8,46,42,5,8,8,46,44,2,3,12,46,46,0,4,2,46,48,2,6,8,46,40,4,9,8,46,42,5,12,8,46,40,8,-1,4,46,42,10,7,9,14,1,6,13,4,12,5,11,3,0,2,8,
16,29,14,10,15,30,144,138,6,8,2,150,142,3,6,6,144,146,4,11,28,144,132,2,6,4,144,146,3,8,18,144,146,3,12,0,150,144,10,11,20,144,124,5,9,4,144,140,4,8,34,144,142,1,8,20,152,124,2,13,12,144,138,1,6,30,144,122,14,-1,40,144,-1,8,12,4,144,146,9,15,30,144,126,2,15,14,144,146,10,13,18,144,126,13,14,36,144,108,6,10,18,144,140,1,11,38,144,114,2,4,4,152,140,3,7,22,150,122,13,15,12,144,140,5,14,10,144,134,0,15,36,-1,108,4,15,6,144,146,9,11,32,144,112,7,10,28,144,122,7,5,14,0,2,9,11,15,10,13,12,1,6,4,
15,29,15,8,13,16,142,138,3,5,2,154,140,9,11,0,142,174,12,13,40,142,114,6,8,36,142,142,4,-1,6,142,142,0,8,38,142,110,0,3,10,142,142,4,9,14,142,144,7,12,32,142,126,1,6,4,-1,138,0,4,6,148,136,13,14,26,142,138,3,4,6,142,146,3,7,18,142,148,6,13,16,142,158,7,9,0,158,142,5,9,14,142,146,8,14,20,148,122,12,14,24,152,118,7,14,34,142,150,3,13,26,142,136,3,12,36,142,116,6,11,12,142,162,14,-1,12,148,130,10,13,40,-1,102,2,11,34,-1,108,5,8,36,142,118,5,14,36,142,138,1,7,5,9,6,10,14,2,12,13,0,8,4,3,11,
15,29,15,9,11,40,124,130,12,13,18,134,106,1,6,34,124,112,10,12,8,124,122,2,8,30,124,134,11,-1,22,124,108,0,11,36,124,106,3,11,14,124,118,7,12,18,132,106,5,10,30,124,128,0,2,6,136,118,0,7,34,124,102,10,11,16,130,108,3,7,20,124,112,2,-1,14,124,120,6,11,36,124,106,2,10,4,124,130,2,6,6,136,118,1,4,8,146,116,2,5,0,158,124,4,-1,6,130,118,3,14,36,-1,88,2,11,26,124,112,4,13,30,124,104,8,9,8,164,116,6,9,24,124,140,6,-1,22,124,114,4,12,2,130,122,5,12,40,124,126,4,2,10,11,6,1,0,12,14,13,5,3,8,7,9,
16,29,16,0,1,38,154,164,1,10,30,154,140,11,12,18,154,160,6,8,38,154,152,8,-1,34,154,134,1,8,16,154,148,9,12,30,154,134,2,7,6,154,-1,1,5,12,154,148,8,10,16,160,138,9,-1,10,154,150,0,8,18,154,160,0,6,16,176,138,3,11,26,154,158,4,7,38,-1,116,3,15,16,154,152,5,15,26,160,128,2,12,4,164,150,0,12,16,154,162,13,-1,34,154,126,11,14,22,176,132,6,14,28,154,148,1,15,40,154,140,8,13,8,160,146,3,8,0,168,154,1,9,24,160,130,0,11,32,154,144,1,2,8,154,156,10,15,24,154,136,0,13,5,15,6,2,4,9,10,7,11,1,8,14,3,12,
16,29,16,2,4,4,-1,12,2,7,2,16,16,14,15,4,16,14,6,7,4,16,16,3,13,0,16,16,8,10,4,16,12,2,9,0,16,16,7,14,2,16,16,2,13,0,16,16,9,10,4,16,16,3,7,2,16,16,9,13,2,16,16,0,2,4,16,16,6,9,0,16,16,1,5,2,16,14,1,13,0,16,16,7,12,4,-1,12,9,-1,0,16,-1,0,6,0,20,16,6,11,2,16,16,1,8,4,16,12,1,11,0,18,16,3,6,4,16,16,1,14,0,16,16,3,5,2,16,14,5,15,4,16,12,10,14,0,16,16,6,15,2,16,14,7,10,0,16,18,5,1,6,9,13,0,8,10,12,4,2,3,14,15,11,7,
15,30,11,0,14,2,44,34,5,13,10,36,48,6,13,10,36,34,6,10,10,36,32,4,10,6,36,36,9,-1,8,44,28,8,9,12,36,40,10,14,8,36,36,2,4,8,36,38,2,3,8,36,36,2,11,4,36,44,0,11,8,36,40,3,6,8,36,34,6,9,8,36,40,8,-1,12,36,32,4,13,2,36,38,4,6,4,42,32,0,10,2,36,38,2,10,2,40,34,0,5,12,36,46,0,6,10,36,34,7,14,6,-1,30,0,4,2,36,38,1,13,6,36,34,9,13,6,36,42,8,11,0,44,36,9,11,4,36,40,2,12,8,-1,28,1,2,6,40,30,3,10,2,36,40,7,12,1,9,4,2,11,6,8,10,0,
16,30,13,2,7,22,162,142,8,15,40,162,132,0,12,4,162,160,13,14,2,164,160,0,14,20,162,160,1,8,4,168,158,0,6,8,162,156,0,15,36,162,134,0,8,32,162,156,9,10,4,162,160,8,10,12,162,156,7,14,4,164,158,1,-1,26,168,136,4,10,32,-1,130,9,13,34,162,160,0,5,34,164,128,7,13,8,162,156,5,10,36,162,128,2,6,28,164,134,10,11,2,-1,160,1,7,10,162,158,10,12,4,164,158,1,10,30,162,160,6,14,38,162,152,14,15,26,170,136,2,3,36,162,146,9,14,0,162,164,1,9,38,162,162,14,-1,26,162,142,3,13,2,162,180,0,8,6,5,7,15,11,12,4,2,13,10,14,
15,30,15,0,6,34,130,124,4,14,36,130,112,8,9,2,130,132,8,14,28,130,114,6,-1,30,136,100,3,8,10,134,120,11,12,40,130,118,9,10,26,130,108,14,-1,40,130,96,8,13,32,130,112,2,7,32,-1,98,1,4,4,136,126,7,10,40,130,120,0,1,2,130,134,5,11,14,158,116,3,10,14,134,116,5,6,22,130,126,4,7,4,130,156,0,3,10,130,132,3,13,8,144,122,4,6,14,130,122,0,14,16,136,114,6,8,18,130,124,5,12,2,130,132,5,10,38,130,108,9,12,2,134,128,5,8,10,130,132,6,14,12,130,126,0,13,38,130,124,5,9,4,130,130,9,2,3,12,13,8,4,6,7,11,5,14,0,10,1,
16,31,16,3,4,8,44,32,5,7,6,42,34,8,11,8,40,46,3,6,4,40,40,0,2,4,42,36,1,4,6,40,42,0,11,10,40,40,4,5,10,40,34,3,14,12,40,32,0,7,4,40,38,2,9,2,40,40,14,-1,6,40,40,9,15,8,40,42,9,13,2,42,38,9,11,10,40,44,0,6,12,40,38,4,8,10,40,38,1,7,2,40,44,6,12,4,-1,36,9,10,10,40,36,3,8,10,40,36,6,7,4,40,40,2,13,2,40,40,2,5,8,40,34,4,-1,4,40,42,8,14,6,44,34,11,15,4,50,36,8,9,2,40,42,1,14,10,40,38,1,10,6,46,34,1,2,12,40,42,12,13,4,15,10,11,14,2,0,6,5,1,9,7,8,3,
15,31,15,0,7,12,126,132,1,4,12,128,114,2,5,6,126,122,1,14,18,126,110,5,10,28,126,126,0,4,40,126,132,8,-1,28,126,100,9,11,40,126,124,0,2,10,126,134,6,13,32,134,94,1,12,38,126,100,5,6,36,126,118,7,11,20,126,132,10,13,26,126,108,7,-1,14,128,112,5,11,26,126,122,2,11,16,126,128,9,14,14,128,112,2,10,4,128,122,1,7,36,126,114,11,-1,20,126,118,2,4,32,126,122,6,7,22,126,112,4,7,0,126,128,11,12,20,138,106,7,8,36,126,114,0,13,22,126,122,0,3,6,-1,120,9,10,18,126,110,5,8,24,128,102,11,14,30,126,128,14,5,9,7,6,13,1,2,11,12,4,8,0,10,3,
16,31,16,12,13,8,144,128,9,15,0,136,144,6,11,6,136,138,1,7,22,136,124,6,7,26,136,134,3,10,30,136,124,9,-1,8,144,128,2,13,38,136,130,4,11,30,144,106,13,15,26,136,134,7,15,6,146,130,10,14,20,136,124,1,9,6,146,130,0,9,8,144,128,3,14,40,136,104,9,12,10,136,138,2,9,16,136,132,6,13,6,136,138,2,15,4,148,132,4,15,28,136,116,3,12,38,136,124,14,15,18,144,118,3,-1,6,144,130,0,2,32,136,124,10,-1,40,136,130,5,6,36,-1,100,0,14,34,136,110,8,10,6,-1,130,0,15,38,136,128,10,12,4,136,140,10,11,24,136,136,0,2,7,8,15,1,12,3,6,9,5,10,11,4,13,14,
16,31,16,10,15,0,14,14,7,12,0,14,14,14,-1,2,14,16,0,9,4,14,10,6,11,2,14,12,6,9,4,14,12,3,8,0,14,14,0,4,4,14,10,4,11,4,14,14,5,14,4,14,10,15,-1,4,14,14,6,14,4,14,10,5,6,0,14,14,7,8,2,14,12,7,14,2,14,12,4,12,0,14,14,8,9,4,14,12,10,11,0,14,14,2,8,2,-1,12,10,13,2,14,12,12,13,2,14,12,3,6,0,14,14,9,13,2,14,12,8,15,2,14,12,7,11,0,14,14,7,9,2,14,14,10,14,4,14,12,4,8,4,14,12,0,3,2,14,12,1,5,4,-1,10,4,7,4,14,14,4,1,9,14,6,11,8,10,7,12,5,13,3,2,0,15,
16,31,16,3,9,4,12,8,2,13,4,12,8,4,12,0,12,12,0,1,2,-1,10,6,10,0,12,12,6,15,0,14,12,1,2,4,12,10,4,9,0,12,12,7,12,4,12,12,2,6,0,12,12,1,3,2,12,10,10,11,2,12,10,2,14,2,12,12,13,14,4,12,8,1,10,2,12,10,2,7,0,12,12,9,15,4,12,12,9,12,0,12,12,4,7,0,12,12,4,11,4,12,10,8,15,2,12,12,8,12,0,12,12,4,13,4,12,8,7,13,4,12,8,8,11,2,12,10,7,-1,4,12,-1,5,12,0,16,12,6,7,0,12,12,4,8,2,12,12,5,7,4,12,12,11,14,2,12,10,9,4,5,14,8,11,0,15,6,13,12,2,3,1,10,7,
16,32,16,6,8,8,28,24,2,4,2,28,28,0,8,4,32,24,3,9,10,28,24,1,15,4,30,24,4,13,10,28,28,5,11,10,28,28,5,13,6,28,28,1,9,2,30,26,1,6,8,30,20,2,11,12,28,26,11,13,0,32,28,2,9,4,30,24,3,4,2,32,26,7,-1,0,30,28,5,9,2,32,26,12,-1,6,28,26,9,11,2,28,30,8,14,12,28,28,10,12,0,-1,28,7,13,12,28,28,4,12,2,28,30,14,-1,2,30,26,3,13,6,28,26,0,7,12,28,24,5,14,6,28,26,0,9,10,28,22,7,14,12,28,26,7,9,4,28,26,5,12,6,28,26,4,15,10,28,20,6,14,10,28,20,9,3,0,2,1,10,8,13,15,6,12,4,5,11,14,7,
15,32,15,5,9,10,24,26,7,10,8,24,24,0,4,6,24,22,3,5,2,32,22,2,5,12,24,20,7,13,4,32,20,8,-1,8,24,26,10,14,4,32,20,2,3,6,24,22,9,-1,4,30,20,10,13,8,24,28,10,11,4,24,28,7,9,2,24,28,1,8,6,24,26,5,7,12,24,24,4,13,10,24,28,2,-1,12,24,22,2,10,0,28,24,3,4,6,24,22,0,6,6,24,-1,4,-1,10,24,22,0,1,8,28,16,4,14,12,24,20,4,10,0,28,24,7,-1,8,24,22,2,8,6,24,28,1,3,0,24,28,7,11,10,24,28,6,12,2,-1,22,11,-1,10,24,26,8,11,0,32,24,5,13,8,24,24,13,3,12,7,14,9,10,6,1,0,5,4,8,11,2,
};
static const int DEEP_AT[] = {
0,113,214,388,551,685,829,957,1079,1237,1405,1578,1732,1896,2059,2212,
2386,2545,2683,2811,2969,3082,3200,3351,3498,3616,3754,3872,4000,4128,4225,4359,
4543,4692,4803,4921,5095,5189,5250,5397,5551,5662,5776,5935,6053,6222,6343,6435,
6528,6675,6822,6976,7082,7246,7420,7544,7733,7922,8056,8134,8271,8420,8573,8731,
8890,9059,9227,9336,9514,9693,9753,9881,10015,10149,10283,10421,10559,10698,10839,10983,
11131,11279,11433,11591,11759,11928,12096,12262,12430,12603,12777,12951,13129,13307,13486,13592,
13709,13825,13945,14074,14202,14330,14464,14597,14730,14862,15000,15138,15200,15348,15500,15653,
15807,15970,16047,16127,16300,16479,16663,16751,16846,16942,17043,17142,17243,17349,17457,17570,
17683,17791,17907,18024,18143,18260,18377,18494,18616,18739,18858,18979,19103,19227,19352,19481,
19610,19739,19870,20003,20137,20270,20408,20547,20686,20827,20970,21114,21258,21402,21545,21693,
21842,21990,22138,22287,22436,22585,22732,22880,23028,23177,23330,23483,23636,23790,23948,24106,
24264,24423,24581,24739,24895,25058,25224,25391,25560,25734,25908,26081,26259,26438,26617,26672,
26732,26800,26866,26936,27015,27093,27176,27262,27353,27447,27543,27644,27743,27843,27947,28055,
28161,28270,28374,28479,28593,28704,28818,28930,29044,29163,29278,29394,29512,29630,29746,29864,
29986,30108,30229,30350,30472,30595,30718,30840,30963,31086,31214,31342,31467,31595,31721,31848,
31972,32105,32237,32371,32502,32635,32769,32903,33042,33181,33320,33456,33594,33733,33872,34008,
34147,34283,34421,34559,34702,34845,34988,35131,35275,35418,35561,35704,35846,35990,36134,36278,
36424,36572,36721,36867,37015,37163,37311,37456,37605,37758,37912,38066,38220,38373,38527,38678,
38830,38984,39138,39290,39446,39604,39762,39920,40078,40234,40392,40551,40709,40867,41025,41188,
41352,41516,41678,41841,42004,42168,42336,42504,42673,42841,43010,43184,43358,43532,43705,43883,
44061,44240,44419,44598,44777,44966,45155,45194,45238,45289,45345,45408,45471,45543,45616,45691,
45771,45851,45929,46007,46088,46165,46248,46329,46414,46499,46584,46671,46756,46841,46926,47014,
47103,47195,47281,47369,47459,47546,47636,47726,47819,47906,47995,48086,48178,48272,48367,48462,
48559,48656,48755,48850,48947,49045,49144,49239,49334,49431,49526,49625,49722,49820,49920,50021,
50123,50225,50327,50427,50528,50632,50736,50837,50940,51043,51147,51251,51350,51451,51553,51656,
51755,51854,51953,52053,52154,52255,52357,52459,52562,52666,52768,52872,52976,53081,53185,53292,
53398,53505,53613,53722,53831,53935,54039,54146,54253,54360,54466,54574,54679,54784,54889,54996,
55102,55209,55317,55425,55532,55641,55746,55852,55958,56064,56170,56278,56388,56498,56609,56720,
56831,56943,57055,57168,57281,57395,57509,57621,57734,57847,57960,58073,58184,58294,58407,58519,
58632,58746,58860,58974,59084,59197,59310,59425,59541,59657,59774,59891,60008,60126,60244,60362,
60481,60600,60715,60831,60947,61066,61182,61299,61417,61535,61652,61769,61886,62003,62121,62239,
62357,62476,62595,62714,62833,62955,63077,63199,63321,63443,63566,63689,63812,63936,64057,64178,
64298,64420,64542,64665,64788,64911,65035,65159,65283,65407,65529,65653,65777,65895,66016,66140,
66264,66390,66514,66641,66770,66899,67028,67154,67282,67410,67539,67667,67794,67923,68052,68178,
68305,68432,68559,68687,68815,68943,69071,69200,69331,69463,69595,69728,69860,69993,70127,70261,
70390,70522,70655,70786,70918,71050,71183,71316,71454,71593,71732,71867,72001,72137,72273,72411,
72549,72687,72825,72963,73100,73240,73382,73523,73666,73810,73951,74094,74238,74379,74521,74664,
74811,74959,75107,75254,75401,75550,75699,75845,75992,76140,76293,76445,76598,76750,76903,77057,
77210,77363,77517,77669,77826,77984,78140,78298,78457,78614,78768,78925,79083,79242,79401,79560,
79719,79878,80042,80206,80369,80532,80696,80859,81022,81184,81347,81510,81674,81838,82002,82168,
82336,82510,82683,82857,83031,83205,83384,};
