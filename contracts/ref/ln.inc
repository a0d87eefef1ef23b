30,0,32,2,
26,0,33,2,
25,0,34,2,
28,0,35,2,
27,0,36,2,
29,0,37,2,
24,0,38,2,
23,0,39,2,
26,25,40,0,
24,23,41,0,
28,27,42,0,
30,29,43,0,
24,23,44,0,
2,0,45,2,
7,0,46,2,
4,0,47,2,
5,0,48,2,
1,0,49,2,
3,0,50,2,
0,0,51,2,
21,0,52,2,
20,0,53,2,
19,0,54,2,
22,0,55,2,
10,0,56,2,
11,0,57,2,
12,0,58,2,
9,0,59,2,
6,0,60,2,
8,0,61,2,
16,0,62,2,
18,0,63,2,
17,0,64,2,
15,0,65,2,
13,0,66,2,
25,24,67,0,
26,27,68,0,
28,29,69,0,
14,0,70,2,
39,38,71,0,
37,32,72,0,
36,35,73,0,
34,33,74,0,
40,41,75,0,
43,42,76,0,
39,24,77,1,
53,54,78,0,
55,52,79,0,
56,57,80,0,
58,66,81,0,
61,59,82,0,
63,64,83,0,
65,62,84,0,
50,45,85,0,
49,51,86,0,
48,47,87,0,
46,60,88,0,
69,68,89,0,
67,23,90,0,
31,0,91,2,
71,74,92,0,
73,72,93,0,
76,75,94,0,
77,0,95,2,
77,23,96,1,
86,85,97,0,
84,83,98,0,
82,80,99,0,
87,88,100,0,
81,70,101,0,
78,79,102,0,
89,90,103,0,
92,93,104,0,
94,0,105,2,
95,39,106,0,
96,0,107,2,
98,102,108,0,
99,101,109,0,
97,100,110,0,
104,0,111,2,
106,0,112,2,
104,91,113,0,
110,109,114,0,
108,103,115,0,
105,111,116,0,
114,115,117,0,
113,0,118,2,
14,116,119,0,
116,91,120,0,
13,116,121,0,
12,116,122,0,
116,16,123,0,
116,22,124,0,
116,20,125,0,
116,18,126,0,
116,15,127,0,
116,21,128,0,
116,17,129,0,
116,19,130,0,
0,116,131,0,
4,116,132,0,
6,116,133,0,
2,116,134,0,
11,116,135,0,
10,116,136,0,
9,116,137,0,
8,116,138,0,
1,116,139,0,
7,116,140,0,
5,116,141,0,
3,116,142,0,
116,0,143,2,
117,0,144,2,
120,144,145,0,
129,0,146,2,
124,0,147,2,
127,0,148,2,
125,0,149,2,
130,0,150,2,
126,0,151,2,
128,0,152,2,
123,0,153,2,
124,125,154,0,
127,126,155,0,
128,130,156,0,
123,129,157,0,
132,134,158,0,
133,131,159,0,
131,122,160,0,
139,135,161,0,
137,139,162,0,
136,131,163,0,
133,139,164,0,
139,119,165,0,
138,0,166,2,
132,122,167,0,
141,135,168,0,
139,121,169,0,
140,132,170,0,
134,121,171,0,
142,141,172,0,
142,132,173,0,
137,141,174,0,
131,135,175,0,
136,139,176,0,
131,121,177,0,
139,122,178,0,
142,121,179,0,
137,138,180,0,
132,121,181,0,
140,0,182,2,
131,119,183,0,
142,122,184,0,
141,0,185,2,
133,0,186,2,
140,139,187,0,
131,138,188,0,
137,131,189,0,
134,138,190,0,
142,140,191,0,
133,134,192,0,
132,141,193,0,
133,136,194,0,
140,131,195,0,
133,132,196,0,
132,0,197,2,
140,138,198,0,
134,122,199,0,
139,138,200,0,
133,137,201,0,
142,138,202,0,
133,138,203,0,
140,136,204,0,
142,136,205,0,
136,134,206,0,
133,135,207,0,
136,138,208,0,
136,141,209,0,
140,137,210,0,
142,133,211,0,
140,134,212,0,
140,141,213,0,
140,133,214,0,
137,134,215,0,
133,141,216,0,
142,134,217,0,
139,134,218,0,
132,135,219,0,
136,132,220,0,
140,135,221,0,
141,122,222,0,
141,138,223,0,
142,137,224,0,
132,138,225,0,
137,136,226,0,
133,121,227,0,
140,121,228,0,
137,121,229,0,
133,122,230,0,
142,135,231,0,
137,132,232,0,
142,119,233,0,
138,119,234,0,
134,135,235,0,
141,121,236,0,
138,135,237,0,
132,119,238,0,
139,0,239,2,
142,0,240,2,
140,122,241,0,
141,119,242,0,
134,119,243,0,
131,0,244,2,
136,0,245,2,
137,135,246,0,
137,0,247,2,
122,0,248,2,
135,0,249,2,
136,121,250,0,
138,122,251,0,
121,0,252,2,
137,122,253,0,
133,119,254,0,
138,121,255,0,
140,119,256,0,
136,135,257,0,
134,0,258,2,
119,0,259,2,
136,122,260,0,
121,135,261,0,
122,121,262,1,
137,119,263,0,
136,119,264,0,
135,122,265,0,
135,119,266,0,
121,122,267,0,
122,119,268,0,
121,119,269,0,
143,25,270,1,
143,27,271,1,
143,91,272,0,
139,244,273,0,
153,146,274,0,
127,151,275,0,
129,153,276,0,
123,146,277,0,
148,151,278,0,
128,150,279,0,
124,149,280,0,
130,152,281,0,
125,147,282,0,
149,147,283,0,
126,148,284,0,
152,150,285,0,
154,156,286,0,
157,155,287,0,
158,159,288,0,
167,0,289,2,
162,163,290,0,
160,161,291,0,
166,165,292,1,
162,0,293,2,
164,0,294,2,
173,0,295,2,
169,0,296,2,
170,131,297,0,
172,0,298,2,
137,181,299,1,
180,0,300,2,
185,189,301,1,
182,177,302,1,
186,175,303,1,
191,0,304,2,
161,0,305,2,
174,131,306,0,
187,188,307,0,
197,195,308,1,
187,0,309,2,
212,0,310,2,
132,159,311,1,
208,0,312,2,
168,167,313,0,
215,0,314,2,
218,173,315,0,
139,234,316,0,
136,227,317,1,
226,0,318,2,
159,135,319,0,
229,132,320,0,
169,183,321,0,
228,131,322,0,
197,141,323,1,
221,208,324,0,
215,170,325,0,
197,142,326,1,
186,141,327,1,
182,138,328,1,
240,134,329,1,
239,134,330,1,
186,140,331,1,
245,135,332,1,
135,248,333,0,
245,137,334,1,
122,249,335,0,
247,138,336,1,
246,0,337,2,
250,133,338,0,
252,119,339,1,
253,0,340,2,
135,255,341,1,
251,246,342,0,
256,253,343,0,
261,138,344,0,
260,0,345,2,
262,0,346,2,
257,0,347,2,
260,229,348,0,
250,0,349,2,
265,0,350,2,
264,0,351,2,
121,248,352,0,
264,261,353,0,
267,0,354,2,
266,0,355,2,
268,0,356,2,
119,252,357,0,
269,0,358,2,
44,270,359,0,
270,44,360,1,
119,258,361,0,
134,259,362,0,
185,134,363,1,
185,258,364,0,
280,279,365,0,
275,276,366,0,
154,279,367,0,
279,283,368,0,
157,284,369,0,
277,284,370,0,
282,281,371,0,
282,285,372,0,
155,274,373,0,
281,283,374,0,
278,276,375,0,
284,276,376,0,
277,278,377,0,
156,282,378,0,
157,278,379,0,
280,285,380,0,
155,277,381,0,
154,285,382,0,
278,274,383,0,
156,283,384,0,
275,274,385,0,
274,284,386,0,
279,282,387,0,
154,281,388,0,
280,281,389,0,
275,157,390,0,
275,277,391,0,
283,285,392,0,
280,156,393,0,
155,276,394,0,
286,287,395,0,
288,0,396,2,
290,0,397,2,
291,0,398,2,
289,168,399,1,
292,171,400,1,
293,163,401,1,
298,297,402,1,
296,183,403,1,
164,288,404,0,
305,160,405,1,
307,0,406,2,
304,306,407,1,
300,299,408,1,
301,193,409,1,
301,0,410,2,
309,188,411,1,
297,172,412,0,
306,191,413,0,
308,0,414,2,
302,0,415,2,
303,0,416,2,
312,221,417,1,
314,170,418,1,
292,0,419,2,
313,0,420,2,
217,311,421,0,
315,0,422,2,
318,317,423,1,
320,0,424,2,
316,0,425,2,
323,0,426,2,
325,0,427,2,
324,0,428,2,
326,0,429,2,
329,0,430,2,
328,0,431,2,
327,0,432,2,
330,0,433,2,
331,0,434,2,
131,330,435,0,
332,0,436,2,
335,0,437,2,
333,0,438,2,
334,0,439,2,
337,251,440,1,
336,0,441,2,
338,0,442,2,
339,0,443,2,
340,256,444,1,
257,341,445,1,
342,0,446,2,
345,229,447,1,
343,0,448,2,
344,0,449,2,
348,0,450,2,
349,335,451,1,
335,250,452,0,
351,261,453,1,
352,266,454,0,
353,0,455,2,
355,352,456,1,
359,0,457,2,
360,0,458,2,
95,360,459,0,
359,26,460,0,
361,0,461,2,
362,0,462,2,
363,0,463,2,
364,0,464,2,
273,0,465,2,
336,439,466,0,
372,383,467,0,
372,366,468,0,
382,377,469,0,
374,375,470,0,
370,384,471,0,
372,375,472,0,
380,373,473,0,
374,376,474,0,
368,379,475,0,
369,384,476,0,
372,369,477,0,
367,379,478,0,
286,373,479,0,
365,385,480,0,
372,381,481,0,
384,377,482,0,
368,376,483,0,
378,381,484,0,
286,370,485,0,
375,371,486,0,
388,376,487,0,
393,377,488,0,
388,369,489,0,
393,391,490,0,
286,394,491,0,
373,392,492,0,
374,381,493,0,
286,390,494,0,
286,379,495,0,
393,287,496,0,
365,373,497,0,
366,392,498,0,
393,369,499,0,
385,371,500,0,
365,391,501,0,
388,379,502,0,
365,375,503,0,
365,366,504,0,
378,386,505,0,
371,376,506,0,
380,287,507,0,
365,379,508,0,
389,381,509,0,
365,390,510,0,
367,390,511,0,
380,377,512,0,
382,390,513,0,
382,376,514,0,
380,394,515,0,
382,369,516,0,
380,391,517,0,
380,383,518,0,
379,392,519,0,
378,370,520,0,
382,370,521,0,
380,381,522,0,
378,376,523,0,
382,383,524,0,
389,287,525,0,
286,386,526,0,
378,377,527,0,
387,381,528,0,
375,384,529,0,
369,371,530,0,
394,371,531,0,
389,370,532,0,
374,391,533,0,
386,384,534,0,
372,390,535,0,
385,384,536,0,
382,394,537,0,
391,371,538,0,
387,376,539,0,
388,386,540,0,
366,371,541,0,
384,376,542,0,
382,391,543,0,
382,287,544,0,
378,385,545,0,
378,373,546,0,
390,384,547,0,
389,383,548,0,
387,377,549,0,
378,379,550,0,
287,384,551,0,
380,386,552,0,
393,373,553,0,
368,369,554,0,
381,392,555,0,
365,386,556,0,
365,377,557,0,
365,381,558,0,
388,373,559,0,
383,384,560,0,
389,375,561,0,
366,384,562,0,
389,390,563,0,
367,391,564,0,
368,370,565,0,
389,369,566,0,
368,373,567,0,
373,384,568,0,
382,366,569,0,
368,381,570,0,
389,376,571,0,
393,370,572,0,
376,392,573,0,
390,392,574,0,
369,387,575,0,
378,390,576,0,
286,381,577,0,
367,370,578,0,
365,369,579,0,
375,387,580,0,
387,390,581,0,
382,385,582,0,
366,387,583,0,
394,384,584,0,
375,392,585,0,
388,377,586,0,
382,386,587,0,
286,377,588,0,
379,387,589,0,
365,383,590,0,
286,385,591,0,
387,386,592,0,
393,366,593,0,
393,390,594,0,
388,383,595,0,
388,394,596,0,
382,373,597,0,
389,379,598,0,
380,390,599,0,
365,394,600,0,
378,383,601,0,
367,287,602,0,
381,384,603,0,
388,391,604,0,
367,383,605,0,
387,287,606,0,
389,377,607,0,
286,375,608,0,
374,383,609,0,
287,392,610,0,
395,0,611,2,
386,392,612,0,
370,387,613,0,
365,370,614,0,
286,383,615,0,
388,390,616,0,
367,386,617,0,
393,386,618,0,
371,377,619,0,
367,381,620,0,
374,385,621,0,
372,386,622,0,
390,371,623,0,
367,376,624,0,
365,376,625,0,
372,370,626,0,
368,375,627,0,
372,373,628,0,
393,376,629,0,
386,371,630,0,
383,371,631,0,
368,386,632,0,
381,371,633,0,
393,381,634,0,
372,391,635,0,
287,371,636,0,
374,373,637,0,
374,366,638,0,
372,379,639,0,
379,371,640,0,
374,379,641,0,
367,375,642,0,
286,376,643,0,
393,394,644,0,
393,383,645,0,
374,377,646,0,
367,369,647,0,
374,287,648,0,
369,392,649,0,
391,384,650,0,
372,287,651,0,
368,377,652,0,
389,394,653,0,
368,287,654,0,
378,391,655,0,
393,385,656,0,
394,392,657,0,
388,366,658,0,
367,366,659,0,
388,287,660,0,
389,366,661,0,
383,392,662,0,
374,394,663,0,
394,387,664,0,
370,392,665,0,
368,391,666,0,
380,370,667,0,
389,385,668,0,
380,379,669,0,
368,366,670,0,
391,387,671,0,
388,381,672,0,
382,379,673,0,
378,366,674,0,
378,369,675,0,
368,385,676,0,
380,369,677,0,
378,287,678,0,
382,375,679,0,
380,375,680,0,
367,394,681,0,
367,377,682,0,
385,392,683,0,
374,390,684,0,
367,385,685,0,
385,387,686,0,
368,390,687,0,
378,394,688,0,
373,371,689,0,
380,376,690,0,
377,392,691,0,
365,287,692,0,
372,377,693,0,
370,371,694,0,
379,384,695,0,
368,383,696,0,
374,370,697,0,
378,375,698,0,
374,369,699,0,
387,373,700,0,
372,385,701,0,
372,394,702,0,
391,392,703,0,
389,391,704,0,
368,394,705,0,
380,385,706,0,
382,381,707,0,
388,385,708,0,
388,370,709,0,
393,375,710,0,
286,366,711,0,
367,373,712,0,
374,386,713,0,
380,366,714,0,
286,391,715,0,
396,294,716,0,
400,184,717,1,
399,179,718,1,
401,190,719,1,
178,398,720,0,
176,397,721,0,
389,373,722,0,
372,376,723,0,
402,192,724,1,
403,199,725,1,
399,0,726,2,
408,204,727,1,
286,369,728,0,
401,0,729,2,
409,0,730,2,
200,406,731,0,
404,0,732,2,
402,0,733,2,
407,0,734,2,
405,206,735,1,
409,211,736,1,
193,410,737,0,
405,0,738,2,
408,0,739,2,
412,0,740,2,
411,0,741,2,
413,0,742,2,
417,230,743,1,
171,419,744,0,
421,0,745,2,
403,0,746,2,
400,0,747,2,
383,387,748,0,
393,379,749,0,
417,0,750,2,
418,0,751,2,
423,237,752,1,
424,300,753,0,
389,386,754,0,
426,329,755,0,
432,328,756,0,
432,431,757,0,
433,239,758,0,
327,431,759,0,
429,329,760,0,
323,430,761,0,
426,430,762,0,
434,327,763,0,
131,433,764,0,
423,0,765,2,
436,336,766,0,
436,441,767,0,
438,437,768,0,
332,441,769,0,
440,228,770,1,
388,375,771,0,
442,318,772,0,
440,0,773,2,
444,0,774,2,
444,445,775,1,
447,0,776,2,
447,234,777,1,
449,347,778,0,
451,263,779,1,
451,0,780,2,
452,0,781,2,
453,0,782,2,
454,0,783,2,
456,0,784,2,
457,26,785,1,
459,0,786,2,
271,460,787,1,
460,271,788,0,
119,463,789,0,
435,0,790,2,
77,458,791,1,
23,785,792,1,
477,0,793,2,
480,0,794,2,
471,0,795,2,
469,0,796,2,
470,0,797,2,
486,0,798,2,
484,0,799,2,
479,0,800,2,
478,0,801,2,
485,0,802,2,
473,0,803,2,
467,0,804,2,
483,0,805,2,
482,0,806,2,
481,0,807,2,
472,0,808,2,
468,0,809,2,
475,0,810,2,
474,0,811,2,
476,0,812,2,
534,0,813,2,
519,0,814,2,
539,0,815,2,
509,0,816,2,
521,0,817,2,
523,0,818,2,
528,0,819,2,
522,0,820,2,
515,0,821,2,
518,0,822,2,
520,0,823,2,
536,0,824,2,
511,0,825,2,
529,0,826,2,
512,0,827,2,
507,0,828,2,
524,0,829,2,
498,0,830,2,
499,0,831,2,
532,0,832,2,
503,0,833,2,
504,0,834,2,
525,0,835,2,
495,0,836,2,
497,0,837,2,
489,0,838,2,
494,0,839,2,
526,0,840,2,
516,0,841,2,
505,0,842,2,
527,0,843,2,
517,0,844,2,
514,0,845,2,
502,0,846,2,
487,0,847,2,
492,0,848,2,
510,0,849,2,
501,0,850,2,
508,0,851,2,
513,0,852,2,
496,0,853,2,
533,0,854,2,
493,0,855,2,
538,0,856,2,
541,0,857,2,
490,0,858,2,
535,0,859,2,
500,0,860,2,
488,0,861,2,
491,0,862,2,
506,0,863,2,
537,0,864,2,
531,0,865,2,
540,0,866,2,
530,0,867,2,
565,0,868,2,
610,0,869,2,
609,0,870,2,
606,0,871,2,
608,0,872,2,
636,0,873,2,
554,0,874,2,
632,0,875,2,
570,0,876,2,
567,0,877,2,
634,0,878,2,
568,0,879,2,
638,0,880,2,
631,0,881,2,
615,0,882,2,
628,0,883,2,
614,0,884,2,
560,0,885,2,
575,0,886,2,
582,0,887,2,
617,0,888,2,
637,0,889,2,
562,0,890,2,
629,0,891,2,
630,0,892,2,
577,0,893,2,
644,0,894,2,
594,0,895,2,
625,0,896,2,
586,0,897,2,
578,0,898,2,
579,0,899,2,
595,0,900,2,
593,0,901,2,
624,0,902,2,
598,0,903,2,
596,0,904,2,
591,0,905,2,
621,0,906,2,
613,0,907,2,
607,0,908,2,
590,0,909,2,
635,0,910,2,
597,0,911,2,
545,0,912,2,
588,0,913,2,
587,0,914,2,
601,0,915,2,
542,0,916,2,
566,0,917,2,
573,0,918,2,
571,0,919,2,
583,0,920,2,
546,0,921,2,
627,0,922,2,
569,0,923,2,
626,0,924,2,
584,0,925,2,
564,0,926,2,
643,0,927,2,
574,0,928,2,
604,0,929,2,
572,0,930,2,
605,0,931,2,
544,0,932,2,
543,0,933,2,
620,0,934,2,
623,0,935,2,
618,0,936,2,
612,0,937,2,
619,0,938,2,
552,0,939,2,
599,0,940,2,
550,0,941,2,
603,0,942,2,
547,0,943,2,
548,0,944,2,
642,0,945,2,
557,0,946,2,
600,0,947,2,
556,0,948,2,
563,0,949,2,
616,0,950,2,
622,0,951,2,
558,0,952,2,
641,0,953,2,
561,0,954,2,
559,0,955,2,
551,0,956,2,
549,0,957,2,
639,0,958,2,
633,0,959,2,
589,0,960,2,
592,0,961,2,
585,0,962,2,
553,0,963,2,
576,0,964,2,
581,0,965,2,
640,0,966,2,
602,0,967,2,
555,0,968,2,
580,0,969,2,
661,0,970,2,
688,0,971,2,
693,0,972,2,
666,0,973,2,
669,0,974,2,
652,0,975,2,
668,0,976,2,
676,0,977,2,
673,0,978,2,
679,0,979,2,
670,0,980,2,
671,0,981,2,
691,0,982,2,
646,0,983,2,
648,0,984,2,
667,0,985,2,
689,0,986,2,
651,0,987,2,
654,0,988,2,
683,0,989,2,
684,0,990,2,
687,0,991,2,
650,0,992,2,
686,0,993,2,
695,0,994,2,
678,0,995,2,
663,0,996,2,
677,0,997,2,
674,0,998,2,
694,0,999,2,
690,0,1000,2,
680,0,1001,2,
664,0,1002,2,
655,0,1003,2,
675,0,1004,2,
662,0,1005,2,
672,0,1006,2,
681,0,1007,2,
649,0,1008,2,
665,0,1009,2,
660,0,1010,2,
658,0,1011,2,
657,0,1012,2,
656,0,1013,2,
692,0,1014,2,
685,0,1015,2,
659,0,1016,2,
682,0,1017,2,
653,0,1018,2,
647,0,1019,2,
645,0,1020,2,
708,0,1021,2,
705,0,1022,2,
703,0,1023,2,
711,0,1024,2,
712,0,1025,2,
706,0,1026,2,
707,0,1027,2,
709,0,1028,2,
704,0,1029,2,
710,0,1030,2,
700,0,1031,2,
702,0,1032,2,
701,0,1033,2,
699,0,1034,2,
697,0,1035,2,
698,0,1036,2,
696,0,1037,2,
714,0,1038,2,
716,0,1039,2,
713,0,1040,2,
715,0,1041,2,
295,716,1042,1,
722,0,1043,2,
717,198,1044,1,
303,721,1045,1,
719,196,1046,1,
718,194,1047,1,
302,720,1048,1,
725,203,1049,1,
718,0,1050,2,
723,0,1051,2,
724,0,1052,2,
719,0,1053,2,
211,730,1054,0,
190,729,1055,0,
192,733,1056,0,
727,207,1057,1,
179,726,1058,0,
731,212,1059,0,
735,213,1060,1,
735,0,1061,2,
728,0,1062,2,
721,416,1063,0,
727,0,1064,2,
206,738,1065,0,
720,415,1066,0,
310,731,1067,1,
736,0,1068,2,
737,0,1069,2,
204,739,1070,0,
725,0,1071,2,
744,0,1072,2,
743,236,1073,1,
717,0,1074,2,
745,422,1075,0,
199,746,1076,0,
184,747,1077,0,
749,0,1078,2,
743,0,1079,2,
230,750,1080,0,
748,0,1081,2,
753,0,1082,2,
752,241,1083,1,
754,0,1084,2,
756,0,1085,2,
757,0,1086,2,
755,326,1087,0,
761,0,1088,2,
762,0,1089,2,
759,331,1090,0,
758,244,1091,0,
752,0,1092,2,
769,0,1093,2,
767,0,1094,2,
766,334,1095,0,
237,765,1096,0,
771,0,1097,2,
770,254,1098,1,
768,0,1099,2,
772,0,1100,2,
770,0,1101,2,
768,262,1102,0,
228,773,1103,0,
774,445,1104,0,
775,0,1105,2,
346,768,1106,0,
777,0,1107,2,
777,778,1108,1,
778,0,1109,2,
234,776,1110,0,
779,0,1111,2,
263,780,1112,0,
350,781,1113,0,
354,783,1114,0,
785,0,1115,2,
785,458,1116,1,
112,786,1117,0,
787,0,1118,2,
788,0,1119,2,
788,29,1120,0,
788,28,1121,0,
785,39,1122,0,
760,0,1123,2,
763,0,1124,2,
785,458,1125,0,
466,0,1126,2,
791,0,1127,2,
787,39,1128,0,
787,23,1129,1,
791,106,1130,1,
95,787,1131,0,
360,787,1132,0,
799,801,1133,0,
810,796,1134,0,
808,803,1135,0,
800,811,1136,0,
807,812,1137,0,
805,794,1138,0,
797,806,1139,0,
795,809,1140,0,
793,802,1141,0,
804,798,1142,0,
819,860,1143,0,
826,822,1144,0,
824,852,1145,0,
867,858,1146,0,
814,821,1147,0,
843,817,1148,0,
851,855,1149,0,
831,850,1150,0,
859,829,1151,0,
832,835,1152,0,
816,820,1153,0,
825,853,1154,0,
837,803,1155,0,
838,836,1156,0,
823,863,1157,0,
857,861,1158,0,
842,854,1159,0,
815,833,1160,0,
849,865,1161,0,
859,817,1162,0,
866,813,1163,0,
830,847,1164,0,
818,827,1165,0,
857,834,1166,0,
844,864,1167,0,
841,845,1168,0,
611,862,1169,0,
939,941,1170,0,
910,923,1171,0,
906,944,1172,0,
849,890,1173,0,
917,919,1174,0,
967,914,1175,0,
836,905,1176,0,
887,879,1177,0,
909,935,1178,0,
806,864,1179,0,
803,924,1180,0,
889,942,1181,0,
878,865,1182,0,
927,960,1183,0,
960,898,1184,0,
959,812,1185,0,
822,798,1186,0,
808,823,1187,0,
926,935,1188,0,
877,900,1189,0,
947,899,1190,0,
908,886,1191,0,
828,861,1192,0,
933,875,1193,0,
880,948,1194,0,
896,863,1195,0,
949,965,1196,0,
892,883,1197,0,
934,838,1198,0,
810,931,1199,0,
816,850,1200,0,
884,868,1201,0,
919,852,1202,0,
869,883,1203,0,
886,870,1204,0,
843,895,1205,0,
831,912,1206,0,
611,907,1207,0,
957,796,1208,0,
824,925,1209,0,
916,955,1210,0,
945,968,1211,0,
885,929,1212,0,
929,809,1213,0,
966,912,1214,0,
938,918,1215,0,
848,958,1216,0,
915,932,1217,0,
916,940,1218,0,
962,941,1219,0,
895,878,1220,0,
969,884,1221,0,
950,891,1222,0,
835,956,1223,0,
874,864,1224,0,
951,877,1225,0,
886,855,1226,0,
930,894,1227,0,
871,936,1228,0,
851,936,1229,0,
961,886,1230,0,
795,865,1231,0,
920,819,1232,0,
869,876,1233,0,
891,801,1234,0,
879,964,1235,0,
943,797,1236,0,
899,946,1237,0,
911,845,1238,0,
959,901,1239,0,
799,936,1240,0,
969,880,1241,0,
916,913,1242,0,
882,904,1243,0,
954,888,1244,0,
922,867,1245,0,
960,948,1246,0,
903,821,1247,0,
850,834,1248,0,
854,874,1249,0,
933,856,1250,0,
838,929,1251,0,
969,963,1252,0,
882,897,1253,0,
952,865,1254,0,
902,921,1255,0,
943,881,1256,0,
928,876,1257,0,
814,982,1258,0,
837,1013,1259,0,
989,848,1260,0,
978,1001,1261,0,
839,872,1262,0,
989,983,1263,0,
860,1008,1264,0,
890,1010,1265,0,
991,958,1266,0,
858,945,1267,0,
1020,901,1268,0,
959,904,1269,0,
957,884,1270,0,
852,1007,1271,0,
867,1017,1272,0,
890,819,1273,0,
976,868,1274,0,
969,975,1275,0,
887,1010,1276,0,
812,920,1277,0,
1012,924,1278,0,
974,953,1279,0,
849,986,1280,0,
985,990,1281,0,
830,998,1282,0,
928,988,1283,0,
896,988,1284,0,
958,822,1285,0,
881,876,1286,0,
855,981,1287,0,
921,990,1288,0,
1009,818,1289,0,
982,980,1290,0,
971,993,1291,0,
861,846,1292,0,
857,844,1293,0,
900,1011,1294,0,
842,940,1295,0,
968,999,1296,0,
928,951,1297,0,
844,1001,1298,0,
1000,934,1299,0,
985,995,1300,0,
933,992,1301,0,
1000,983,1302,0,
971,994,1303,0,
854,996,1304,0,
862,965,1305,0,
995,920,1306,0,
961,947,1307,0,
979,997,1308,0,
955,944,1309,0,
1015,866,1310,0,
887,968,1311,0,
821,955,1312,0,
880,796,1313,0,
841,950,1314,0,
1016,945,1315,0,
996,972,1316,0,
845,884,1317,0,
976,1018,1318,0,
977,983,1319,0,
832,1002,1320,0,
987,819,1321,0,
984,819,1322,0,
974,923,1323,0,
935,997,1324,0,
1006,913,1325,0,
899,925,1326,0,
815,901,1327,0,
1034,1006,1328,0,
910,829,1329,0,
1023,1033,1330,0,
831,838,1331,0,
859,1031,1332,0,
858,941,1333,0,
1005,827,1334,0,
1016,913,1335,0,
1000,1011,1336,0,
847,871,1337,0,
915,795,1338,0,
1030,810,1339,0,
1035,887,1340,0,
1029,861,1341,0,
977,1022,1342,0,
906,1028,1343,0,
818,952,1344,0,
877,931,1345,0,
837,1019,1346,0,
986,1018,1347,0,
1030,887,1348,0,
828,871,1349,0,
847,1024,1350,0,
979,877,1351,0,
845,1014,1352,0,
1026,989,1353,0,
968,993,1354,0,
1020,1032,1355,0,
807,1014,1356,0,
933,889,1357,0,
932,975,1358,0,
974,1035,1359,0,
888,968,1360,0,
1042,0,1361,2,
1026,951,1362,0,
173,1039,1363,0,
1036,999,1364,0,
1025,993,1365,0,
858,818,1366,0,
814,942,1367,0,
805,836,1368,0,
831,992,1369,0,
1016,1031,1370,0,
995,928,1371,0,
905,956,1372,0,
824,1008,1373,0,
909,1033,1374,0,
1041,952,1375,0,
1040,871,1376,0,
1044,201,1377,1,
795,1019,1378,0,
1047,0,1379,2,
856,925,1380,0,
932,817,1381,0,
1048,205,1382,1,
1046,0,1383,2,
1045,202,1384,1,
1036,1021,1385,0,
910,1000,1386,0,
921,1003,1387,0,
961,982,1388,0,
827,948,1389,0,
849,911,1390,0,
977,867,1391,0,
996,870,1392,0,
951,833,1393,0,
1043,953,1394,0,
850,895,1395,0,
196,1053,1396,0,
959,983,1397,0,
889,870,1398,0,
411,1052,1399,1,
961,804,1400,0,
896,829,1401,0,
813,802,1402,0,
1000,1007,1403,0,
1048,0,1404,2,
1049,174,1405,1,
194,1050,1406,0,
939,803,1407,0,
826,942,1408,0,
808,970,1409,0,
834,879,1410,0,
927,999,1411,0,
969,811,1412,0,
815,832,1413,0,
1028,1004,1414,0,
1015,947,1415,0,
839,946,1416,0,
1041,798,1417,0,
994,988,1418,0,
938,815,1419,0,
889,897,1420,0,
985,904,1421,0,
950,847,1422,0,
993,1007,1423,0,
213,1061,1424,0,
1060,224,1425,1,
824,854,1426,0,
1010,881,1427,0,
823,844,1428,0,
921,973,1429,0,
1057,222,1430,1,
1058,0,1431,2,
923,1062,1432,0,
1056,0,1433,2,
922,828,1434,0,
936,1037,1435,0,
941,850,1436,0,
887,963,1437,0,
851,807,1438,0,
414,1042,1439,0,
951,939,1440,0,
875,868,1441,0,
1054,0,1442,2,
1055,0,1443,2,
1059,0,1444,2,
1015,929,1445,0,
979,809,1446,0,
892,972,1447,0,
812,864,1448,0,
984,807,1449,0,
741,1052,1450,0,
1066,0,1451,2,
1051,852,1452,0,
1067,1068,1453,1,
1065,0,1454,2,
1063,0,1455,2,
207,1064,1456,0,
967,910,1457,0,
308,1042,1458,1,
968,865,1459,0,
1060,0,1460,2,
1067,0,1461,2,
942,860,1462,0,
934,830,1463,0,
978,925,1464,0,
866,914,1465,0,
1070,0,1466,2,
1057,0,1467,2,
1044,0,1468,2,
1049,0,1469,2,
203,1071,1470,0,
1045,0,1471,2,
969,940,1472,0,
198,1074,1473,0,
1076,0,1474,2,
975,835,1475,0,
976,965,1476,0,
1007,876,1477,0,
1031,876,1478,0,
1073,0,1479,2,
425,1072,1480,0,
916,988,1481,0,
797,946,1482,0,
890,977,1483,0,
1073,238,1484,1,
1075,0,1485,2,
1016,919,1486,0,
236,1079,1487,0,
1081,1062,1488,0,
947,811,1489,0,
1047,210,1490,1,
1080,0,1491,2,
1077,0,1492,2,
816,907,1493,0,
1083,242,1494,1,
986,826,1495,0,
998,993,1496,0,
1022,798,1497,0,
1028,855,1498,0,
800,1084,1499,0,
836,990,1500,0,
1040,950,1501,0,
980,1014,1502,0,
1085,1086,1503,0,
1035,920,1504,0,
977,887,1505,0,
987,981,1506,0,
1038,809,1507,0,
1088,1089,1508,0,
858,1084,1509,0,
954,1031,1510,0,
1036,987,1511,0,
919,801,1512,0,
812,847,1513,0,
927,817,1514,0,
904,848,1515,0,
1078,914,1516,0,
1051,1017,1517,0,
1036,1009,1518,0,
858,1028,1519,0,
842,950,1520,0,
241,1092,1521,0,
932,943,1522,0,
808,885,1523,0,
1094,1093,1524,0,
1083,0,1525,2,
1043,994,1526,0,
885,926,1527,0,
992,866,1528,0,
989,958,1529,0,
836,925,1530,0,
816,884,1531,0,
886,1004,1532,0,
930,939,1533,0,
835,883,1534,0,
985,1034,1535,0,
992,914,1536,0,
949,921,1537,0,
884,1037,1538,0,
851,897,1539,0,
1023,900,1540,0,
1096,0,1541,2,
811,981,1542,0,
840,909,1543,0,
971,807,1544,0,
907,1027,1545,0,
1036,800,1546,0,
797,804,1547,0,
857,807,1548,0,
1078,864,1549,0,
894,1001,1550,0,
443,1099,1551,0,
1097,923,1552,0,
842,1008,1553,0,
890,875,1554,0,
991,898,1555,0,
1040,889,1556,0,
962,822,1557,0,
1098,0,1558,2,
1098,772,1559,1,
974,966,1560,0,
339,1099,1561,0,
898,833,1562,0,
896,1021,1563,0,
889,988,1564,0,
1081,994,1565,0,
809,1018,1566,0,
1002,829,1567,0,
895,1022,1568,0,
908,832,1569,0,
827,799,1570,0,
957,905,1571,0,
883,1018,1572,0,
979,946,1573,0,
1010,993,1574,0,
1024,923,1575,0,
821,820,1576,0,
1084,870,1577,0,
254,1101,1578,0,
824,924,1579,0,
944,801,1580,0,
939,798,1581,0,
959,987,1582,0,
917,1025,1583,0,
806,1001,1584,0,
1019,972,1585,0,
974,968,1586,0,
884,832,1587,0,
891,964,1588,0,
1051,859,1589,0,
872,868,1590,0,
855,847,1591,0,
920,1017,1592,0,
1034,905,1593,0,
815,970,1594,0,
1035,932,1595,0,
850,843,1596,0,
824,992,1597,0,
867,807,1598,0,
1005,956,1599,0,
911,1029,1600,0,
795,850,1601,0,
1000,958,1602,0,
934,853,1603,0,
946,944,1604,0,
831,895,1605,0,
986,884,1606,0,
1103,0,1607,2,
926,794,1608,0,
943,805,1609,0,
976,1003,1610,0,
850,942,1611,0,
813,1024,1612,0,
849,841,1613,0,
831,1033,1614,0,
809,925,1615,0,
971,907,1616,0,
805,806,1617,0,
895,901,1618,0,
977,963,1619,0,
988,871,1620,0,
938,972,1621,0,
839,938,1622,0,
1104,0,1623,2,
849,874,1624,0,
843,990,1625,0,
891,924,1626,0,
942,1012,1627,0,
1002,1032,1628,0,
893,880,1629,0,
821,952,1630,0,
869,955,1631,0,
1025,957,1632,0,
877,920,1633,0,
989,992,1634,0,
1023,894,1635,0,
1015,935,1636,0,
885,884,1637,0,
959,1007,1638,0,
969,900,1639,0,
858,894,1640,0,
897,898,1641,0,
1035,952,1642,0,
810,1022,1643,0,
868,813,1644,0,
894,965,1645,0,
886,926,1646,0,
816,868,1647,0,
818,812,1648,0,
996,811,1649,0,
961,806,1650,0,
1019,868,1651,0,
975,1037,1652,0,
867,865,1653,0,
918,1062,1654,0,
802,918,1655,0,
1106,443,1656,0,
1000,816,1657,0,
995,855,1658,0,
888,1025,1659,0,
611,960,1660,0,
954,814,1661,0,
1051,976,1662,0,
1021,944,1663,0,
814,1009,1664,0,
983,980,1665,0,
814,908,1666,0,
1081,812,1667,0,
890,997,1668,0,
1051,981,1669,0,
869,860,1670,0,
1002,944,1671,0,
1038,1023,1672,0,
1041,885,1673,0,
904,953,1674,0,
985,804,1675,0,
839,929,1676,0,
922,978,1677,0,
821,997,1678,0,
830,893,1679,0,
932,897,1680,0,
971,998,1681,0,
962,895,1682,0,
850,866,1683,0,
1029,923,1684,0,
854,927,1685,0,
857,846,1686,0,
1021,957,1687,0,
1033,883,1688,0,
1110,0,1689,2,
901,836,1690,0,
989,914,1691,0,
917,955,1692,0,
893,1013,1693,0,
800,801,1694,0,
945,927,1695,0,
926,825,1696,0,
863,899,1697,0,
945,963,1698,0,
960,936,1699,0,
892,1084,1700,0,
863,861,1701,0,
1078,832,1702,0,
1097,794,1703,0,
1043,1029,1704,0,
840,1013,1705,0,
830,997,1706,0,
907,921,1707,0,
828,1031,1708,0,
974,828,1709,0,
1107,1109,1710,0,
912,920,1711,0,
959,968,1712,0,
931,836,1713,0,
1020,1007,1714,0,
928,960,1715,0,
995,878,1716,0,
841,1017,1717,0,
945,844,1718,0,
797,825,1719,0,
874,945,1720,0,
974,980,1721,0,
983,1004,1722,0,
899,1022,1723,0,
985,949,1724,0,
902,929,1725,0,
989,1022,1726,0,
882,829,1727,0,
1016,908,1728,0,
903,1024,1729,0,
1025,802,1730,0,
834,993,1731,0,
859,866,1732,0,
856,1010,1733,0,
901,921,1734,0,
1036,849,1735,0,
1028,866,1736,0,
922,938,1737,0,
1023,801,1738,0,
916,957,1739,0,
995,908,1740,0,
892,937,1741,0,
872,925,1742,0,
857,933,1743,0,
839,1015,1744,0,
930,935,1745,0,
850,853,1746,0,
841,979,1747,0,
842,936,1748,0,
984,928,1749,0,
828,820,1750,0,
953,853,1751,0,
906,905,1752,0,
1019,847,1753,0,
950,875,1754,0,
929,798,1755,0,
841,1015,1756,0,
951,864,1757,0,
835,802,1758,0,
930,818,1759,0,
941,848,1760,0,
831,833,1761,0,
840,859,1762,0,
896,848,1763,0,
800,817,1764,0,
830,1027,1765,0,
843,1011,1766,0,
840,895,1767,0,
1036,981,1768,0,
918,846,1769,0,
930,798,1770,0,
842,793,1771,0,
812,993,1772,0,
1051,950,1773,0,
814,1035,1774,0,
894,868,1775,0,
947,882,1776,0,
902,1084,1777,0,
1005,994,1778,0,
1112,0,1779,2,
975,876,1780,0,
1051,844,1781,0,
971,826,1782,0,
909,862,1783,0,
1040,927,1784,0,
800,973,1785,0,
1015,932,1786,0,
797,931,1787,0,
987,881,1788,0,
799,1007,1789,0,
1035,812,1790,0,
890,954,1791,0,
812,997,1792,0,
828,993,1793,0,
453,1113,1794,1,
910,940,1795,0,
797,850,1796,0,
969,927,1797,0,
991,978,1798,0,
1043,878,1799,0,
939,825,1800,0,
611,1062,1801,0,
934,1014,1802,0,
1004,833,1803,0,
855,1012,1804,0,
954,879,1805,0,
1004,998,1806,0,
820,953,1807,0,
1001,822,1808,0,
894,844,1809,0,
969,859,1810,0,
889,821,1811,0,
890,1024,1812,0,
922,984,1813,0,
1028,1007,1814,0,
967,829,1815,0,
991,944,1816,0,
885,870,1817,0,
968,1032,1818,0,
836,881,1819,0,
992,834,1820,0,
928,948,1821,0,
964,1017,1822,0,
851,833,1823,0,
845,1017,1824,0,
1043,949,1825,0,
793,975,1826,0,
901,800,1827,0,
874,868,1828,0,
830,1004,1829,0,
814,796,1830,0,
965,880,1831,0,
991,986,1832,0,
1026,1000,1833,0,
1113,0,1834,2,
1015,811,1835,0,
841,918,1836,0,
861,990,1837,0,
889,958,1838,0,
959,860,1839,0,
977,1017,1840,0,
906,872,1841,0,
818,823,1842,0,
1016,846,1843,0,
839,1013,1844,0,
840,863,1845,0,
847,865,1846,0,
850,802,1847,0,
909,952,1848,0,
886,924,1849,0,
911,875,1850,0,
847,1031,1851,0,
882,801,1852,0,
838,1011,1853,0,
886,1003,1854,0,
1023,844,1855,0,
824,961,1856,0,
950,869,1857,0,
906,1031,1858,0,
832,869,1859,0,
943,935,1860,0,
830,920,1861,0,
874,1034,1862,0,
1040,948,1863,0,
854,981,1864,0,
937,1027,1865,0,
961,1022,1866,0,
971,873,1867,0,
797,921,1868,0,
874,918,1869,0,
969,835,1870,0,
962,1023,1871,0,
965,811,1872,0,
824,915,1873,0,
793,1032,1874,0,
843,884,1875,0,
1081,910,1876,0,
879,813,1877,0,
1043,1004,1878,0,
1035,1013,1879,0,
893,913,1880,0,
1019,998,1881,0,
826,988,1882,0,
828,904,1883,0,
867,878,1884,0,
927,855,1885,0,
808,853,1886,0,
911,1021,1887,0,
995,856,1888,0,
999,1032,1889,0,
852,860,1890,0,
1021,850,1891,0,
848,1084,1892,0,
861,870,1893,0,
1041,902,1894,0,
801,936,1895,0,
826,955,1896,0,
1030,1014,1897,0,
945,926,1898,0,
969,854,1899,0,
811,973,1900,0,
856,796,1901,0,
1019,865,1902,0,
912,819,1903,0,
1026,897,1904,0,
984,983,1905,0,
805,1033,1906,0,
956,948,1907,0,
930,825,1908,0,
1009,1011,1909,0,
937,907,1910,0,
892,943,1911,0,
917,837,1912,0,
873,866,1913,0,
943,817,1914,0,
983,981,1915,0,
974,940,1916,0,
818,805,1917,0,
1024,1004,1918,0,
943,853,1919,0,
1023,1001,1920,0,
1084,822,1921,0,
1033,996,1922,0,
819,1062,1923,0,
793,970,1924,0,
842,958,1925,0,
979,1004,1926,0,
896,865,1927,0,
1027,1031,1928,0,
934,990,1929,0,
1020,1027,1930,0,
937,874,1931,0,
611,795,1932,0,
992,946,1933,0,
954,1034,1934,0,
919,993,1935,0,
962,798,1936,0,
882,988,1937,0,
899,1011,1938,0,
924,946,1939,0,
945,931,1940,0,
1038,882,1941,0,
972,953,1942,0,
864,801,1943,0,
1028,960,1944,0,
903,964,1945,0,
840,891,1946,0,
356,1114,1947,1,
1038,990,1948,0,
896,857,1949,0,
1114,0,1950,2,
891,833,1951,0,
910,811,1952,0,
1084,973,1953,0,
1026,949,1954,0,
841,865,1955,0,
858,942,1956,0,
804,955,1957,0,
911,868,1958,0,
1031,980,1959,0,
981,1007,1960,0,
886,820,1961,0,
894,833,1962,0,
1041,951,1963,0,
942,1084,1964,0,
979,1002,1965,0,
844,800,1966,0,
848,960,1967,0,
1034,964,1968,0,
804,817,1969,0,
1038,935,1970,0,
962,1016,1971,0,
959,801,1972,0,
984,1078,1973,0,
893,810,1974,0,
939,869,1975,0,
918,796,1976,0,
863,900,1977,0,
928,1005,1978,0,
961,933,1979,0,
959,880,1980,0,
1027,868,1981,0,
794,965,1982,0,
821,869,1983,0,
959,799,1984,0,
850,1008,1985,0,
904,1003,1986,0,
1034,968,1987,0,
844,803,1988,0,
902,898,1989,0,
922,893,1990,0,
912,913,1991,0,
840,843,1992,0,
815,996,1993,0,
1035,818,1994,0,
1026,816,1995,0,
916,925,1996,0,
1015,803,1997,0,
891,861,1998,0,
978,852,1999,0,
1010,948,2000,0,
989,895,2001,0,
841,810,2002,0,
812,963,2003,0,
974,1020,2004,0,
947,846,2005,0,
916,928,2006,0,
851,999,2007,0,
955,1032,2008,0,
954,802,2009,0,
885,1033,2010,0,
915,940,2011,0,
922,917,2012,0,
914,800,2013,0,
901,871,2014,0,
867,916,2015,0,
874,1002,2016,0,
962,806,2017,0,
915,935,2018,0,
917,1017,2019,0,
907,827,2020,0,
1026,939,2021,0,
905,980,2022,0,
841,1029,2023,0,
954,856,2024,0,
911,847,2025,0,
886,881,2026,0,
1078,942,2027,0,
1043,999,2028,0,
1000,895,2029,0,
991,807,2030,0,
917,835,2031,0,
874,865,2032,0,
884,944,2033,0,
1038,921,2034,0,
879,1010,2035,0,
914,913,2036,0,
869,898,2037,0,
857,941,2038,0,
899,876,2039,0,
984,920,2040,0,
931,997,2041,0,
961,885,2042,0,
882,831,2043,0,
1081,1004,2044,0,
1097,1006,2045,0,
888,818,2046,0,
909,929,2047,0,
875,1024,2048,0,
833,1037,2049,0,
1081,888,2050,0,
968,1027,2051,0,
1015,797,2052,0,
1026,896,2053,0,
915,1078,2054,0,
1003,973,2055,0,
938,924,2056,0,
922,999,2057,0,
966,878,2058,0,
1051,807,2059,0,
1051,998,2060,0,
859,936,2061,0,
983,865,2062,0,
879,802,2063,0,
1013,999,2064,0,
906,813,2065,0,
1097,793,2066,0,
842,897,2067,0,
908,1019,2068,0,
1038,925,2069,0,
905,913,2070,0,
803,825,2071,0,
1002,965,2072,0,
966,956,2073,0,
1038,943,2074,0,
911,852,2075,0,
937,872,2076,0,
1026,1018,2077,0,
991,1078,2078,0,
938,852,2079,0,
881,870,2080,0,
889,794,2081,0,
851,976,2082,0,
611,848,2083,0,
924,973,2084,0,
911,822,2085,0,
815,972,2086,0,
926,798,2087,0,
937,901,2088,0,
826,972,2089,0,
982,1014,2090,0,
991,967,2091,0,
842,863,2092,0,
854,1021,2093,0,
866,811,2094,0,
945,837,2095,0,
934,899,2096,0,
818,834,2097,0,
933,1001,2098,0,
896,799,2099,0,
949,865,2100,0,
1035,1024,2101,0,
824,1022,2102,0,
938,936,2103,0,
974,1081,2104,0,
904,883,2105,0,
914,998,2106,0,
986,850,2107,0,
978,832,2108,0,
917,1006,2109,0,
1097,920,2110,0,
952,1010,2111,0,
931,929,2112,0,
997,914,2113,0,
814,810,2114,0,
906,1030,2115,0,
962,1018,2116,0,
989,838,2117,0,
815,929,2118,0,
859,830,2119,0,
1025,887,2120,0,
1023,988,2121,0,
872,994,2122,0,
960,826,2123,0,
916,931,2124,0,
912,1032,2125,0,
1003,838,2126,0,
1016,1010,2127,0,
904,900,2128,0,
1041,901,2129,0,
908,875,2130,0,
897,950,2131,0,
1078,986,2132,0,
917,961,2133,0,
991,1038,2134,0,
863,973,2135,0,
919,964,2136,0,
939,960,2137,0,
904,931,2138,0,
1030,1034,2139,0,
979,873,2140,0,
911,879,2141,0,
995,970,2142,0,
959,888,2143,0,
978,1023,2144,0,
975,865,2145,0,
978,822,2146,0,
1034,802,2147,0,
818,955,2148,0,
816,848,2149,0,
898,998,2150,0,
1009,1012,2151,0,
829,940,2152,0,
949,989,2153,0,
881,803,2154,0,
995,905,2155,0,
970,948,2156,0,
897,895,2157,0,
1084,817,2158,0,
952,958,2159,0,
892,804,2160,0,
823,1032,2161,0,
1008,988,2162,0,
812,1021,2163,0,
1081,914,2164,0,
1026,925,2165,0,
842,983,2166,0,
816,801,2167,0,
888,830,2168,0,
985,953,2169,0,
1115,360,2170,0,
816,1037,2171,0,
813,1032,2172,0,
1116,0,2173,2,
947,902,2174,0,
900,952,2175,0,
982,1017,2176,0,
985,797,2177,0,
897,958,2178,0,
986,895,2179,0,
967,867,2180,0,
866,796,2181,0,
938,863,2182,0,
977,1007,2183,0,
851,1062,2184,0,
814,917,2185,0,
827,878,2186,0,
969,961,2187,0,
915,898,2188,0,
847,1022,2189,0,
849,1006,2190,0,
873,832,2191,0,
793,827,2192,0,
1026,884,2193,0,
795,925,2194,0,
785,1118,2195,1,
960,965,2196,0,
1115,787,2197,0,
920,1031,2198,0,
951,1018,2199,0,
1021,855,2200,0,
823,1005,2201,0,
954,841,2202,0,
899,883,2203,0,
856,1008,2204,0,
941,806,2205,0,
1035,855,2206,0,
1119,28,2207,1,
1036,959,2208,0,
1038,949,2209,0,
909,794,2210,0,
911,846,2211,0,
807,923,2212,0,
939,836,2213,0,
892,976,2214,0,
891,973,2215,0,
966,999,2216,0,
954,964,2217,0,
957,998,2218,0,
1026,810,2219,0,
842,992,2220,0,
952,955,2221,0,
963,1017,2222,0,
1041,862,2223,0,
869,1008,2224,0,
932,962,2225,0,
938,834,2226,0,
851,889,2227,0,
941,822,2228,0,
1021,884,2229,0,
863,797,2230,0,
828,1020,2231,0,
888,950,2232,0,
818,877,2233,0,
1120,28,2234,0,
983,1008,2235,0,
937,968,2236,0,
1034,880,2237,0,
1033,990,2238,0,
985,884,2239,0,
849,1010,2240,0,
851,978,2241,0,
881,798,2242,0,
951,935,2243,0,
37,1121,2244,1,
1036,915,2245,0,
877,876,2246,0,
848,944,2247,0,
837,918,2248,0,
891,822,2249,0,
908,871,2250,0,
902,894,2251,0,
794,862,2252,0,
866,864,2253,0,
906,870,2254,0,
1036,918,2255,0,
991,923,2256,0,
1032,956,2257,0,
863,798,2258,0,
1051,966,2259,0,
859,998,2260,0,
991,992,2261,0,
906,979,2262,0,
979,923,2263,0,
816,978,2264,0,
826,852,2265,0,
856,827,2266,0,
840,992,2267,0,
1021,869,2268,0,
950,793,2269,0,
829,1018,2270,0,
863,809,2271,0,
814,801,2272,0,
1097,984,2273,0,
907,1010,2274,0,
951,927,2275,0,
938,1007,2276,0,
963,1024,2277,0,
873,800,2278,0,
902,886,2279,0,
887,920,2280,0,
967,826,2281,0,
874,910,2282,0,
810,942,2283,0,
867,945,2284,0,
1000,799,2285,0,
992,975,2286,0,
1040,1025,2287,0,
805,965,2288,0,
1122,0,2289,2,
901,883,2290,0,
962,883,2291,0,
968,1004,2292,0,
971,1027,2293,0,
852,846,2294,0,
983,1002,2295,0,
1091,0,2296,2,
1087,0,2297,2,
1090,0,2298,2,
1003,861,2299,0,
1097,993,2300,0,
1038,1078,2301,0,
916,912,2302,0,
830,869,2303,0,
1051,872,2304,0,
1013,1012,2305,0,
1125,0,2306,2,
805,820,2307,0,
816,1078,2308,0,
1036,1010,2309,0,
1095,0,2310,2,
1003,924,2311,0,
846,923,2312,0,
870,853,2313,0,
802,1062,2314,0,
795,973,2315,0,
928,1021,2316,0,
828,845,2317,0,
871,970,2318,0,
932,944,2319,0,
1043,813,2320,0,
800,820,2321,0,
954,903,2322,0,
1102,0,2323,2,
930,990,2324,0,
888,908,2325,0,
895,880,2326,0,
978,870,2327,0,
1026,1012,2328,0,
1097,903,2329,0,
844,942,2330,0,
881,1018,2331,0,
794,988,2332,0,
935,953,2333,0,
975,1010,2334,0,
1027,923,2335,0,
1040,845,2336,0,
849,981,2337,0,
951,884,2338,0,
1027,871,2339,0,
888,982,2340,0,
1036,824,2341,0,
989,976,2342,0,
987,937,2343,0,
1040,905,2344,0,
906,841,2345,0,
937,799,2346,0,
858,946,2347,0,
1128,0,2348,2,
1129,0,2349,2,
937,992,2350,0,
800,925,2351,0,
912,1031,2352,0,
823,876,2353,0,
905,1024,2354,0,
1015,882,2355,0,
986,955,2356,0,
1028,958,2357,0,
851,898,2358,0,
823,975,2359,0,
1043,903,2360,0,
893,918,2361,0,
1117,1116,2362,1,
947,999,2363,0,
1040,1010,2364,0,
77,1118,2365,1,
978,810,2366,0,
1130,0,2367,2,
975,855,2368,0,
816,831,2369,0,
974,871,2370,0,
846,1001,2371,0,
360,1118,2372,1,
1131,0,2373,2,
908,966,2374,0,
999,1037,2375,0,
1132,0,2376,2,
1015,853,2377,0,
934,958,2378,0,
931,1007,2379,0,
1136,828,2380,0,
1139,1140,2381,0,
1137,856,2382,0,
1138,846,2383,0,
1141,839,2384,0,
1134,1133,2385,0,
1135,840,2386,0,
1142,848,2387,0,
1151,953,2388,0,
1143,872,2389,0,
1147,964,2390,0,
1150,1149,2391,0,
1154,1169,2392,0,
1163,920,2393,0,
1152,1148,2394,0,
1153,873,2395,0,
1160,1166,2396,0,
1162,893,2397,0,
1164,1165,2398,0,
1156,1155,2399,0,
1161,937,2400,0,
1144,1146,2401,0,
1159,832,2402,0,
1145,888,2403,0,
1158,915,2404,0,
1174,1215,2405,0,
1253,1252,2406,0,
1238,1233,2407,0,
1197,856,2408,0,
1192,1225,2409,0,
1175,879,2410,0,
1198,794,2411,0,
1232,1254,2412,0,
1199,806,2413,0,
1196,990,2414,0,
1235,843,2415,0,
1223,1221,2416,0,
1219,798,2417,0,
1194,900,2418,0,
1195,970,2419,0,
1228,981,2420,0,
1249,908,2421,0,
1226,1009,2422,0,
1207,1208,2423,0,
1255,1257,2424,0,
1244,892,2425,0,
1205,814,2426,0,
1243,800,2427,0,
1246,804,2428,0,
1236,1222,2429,0,
1176,848,2430,0,
1212,978,2431,0,
1220,1239,2432,0,
1229,849,2433,0,
1201,1019,2434,0,
1247,867,2435,0,
1237,1230,2436,0,
1250,1003,2437,0,
1204,924,2438,0,
1203,1202,2439,0,
1173,957,2440,0,
1200,897,2441,0,
1186,840,2442,0,
1180,946,2443,0,
1248,1227,2444,0,
1187,1017,2445,0,
1183,1008,2446,0,
1224,1004,2447,0,
1182,1179,2448,0,
1218,1014,2449,0,
1181,984,2450,0,
1206,1172,2451,0,
1170,1171,2452,0,
1177,1005,2453,0,
1188,1184,2454,0,
1234,824,2455,0,
1185,2273,2456,0,
1178,973,2457,0,
1217,860,2458,0,
1209,1017,2459,0,
1193,1160,2460,0,
1251,1190,2461,0,
1210,1211,2462,0,
1241,1245,2463,0,
1216,1214,2464,0,
1307,846,2465,0,
1282,1284,2466,0,
1283,980,2467,0,
1269,1037,2468,0,
1169,965,2469,0,
1278,951,2470,0,
1300,1176,2471,0,
1281,1279,2472,0,
1309,1027,2473,0,
1327,1326,2474,0,
1280,2333,2475,0,
1314,1027,2476,0,
1296,2343,2477,0,
1298,962,2478,0,
1266,914,2479,0,
1322,1024,2480,0,
1318,1036,2481,0,
1317,1025,2482,0,
1273,872,2483,0,
1276,1277,2484,0,
1310,1025,2485,0,
1297,1270,2486,0,
1268,903,2487,0,
1320,1319,2488,0,
1274,1275,2489,0,
1267,835,2490,0,
1133,1295,2491,0,
1265,856,2492,0,
1312,1037,2493,0,
1259,1020,2494,0,
1263,948,2495,0,
1262,1968,2496,0,
1288,1285,2497,0,
1286,917,2498,0,
1315,1032,2499,0,
1289,1290,2500,0,
1313,970,2501,0,
1179,1323,2502,0,
1301,1020,2503,0,
1299,893,2504,0,
1305,954,2505,0,
1316,998,2506,0,
1292,863,2507,0,
1293,1012,2508,0,
1294,840,2509,0,
1331,1332,2510,0,
1344,926,2511,0,
1354,1335,2512,0,
1336,1338,2513,0,
1347,815,2514,0,
1341,980,2515,0,
1330,851,2516,0,
1329,847,2517,0,
1345,987,2518,0,
1349,1348,2519,0,
1352,797,2520,0,
1343,1006,2521,0,
1366,1365,2522,0,
1363,0,2523,2,
308,1361,2524,0,
1367,1368,2525,0,
1359,1034,2526,0,
1358,1360,2527,0,
1141,885,2528,0,
1373,1250,2529,0,
1355,825,2530,0,
1369,1372,2531,0,
1371,1011,2532,0,
1375,1376,2533,0,
1370,1374,2534,0,
734,1383,2535,0,
1256,949,2536,0,
1377,209,2537,1,
210,1379,2538,0,
1394,1393,2539,0,
1389,1390,2540,0,
1382,0,2541,2,
1384,216,2542,1,
1382,214,2543,1,
1386,852,2544,0,
1388,866,2545,0,
1385,1051,2546,0,
1381,1027,2547,0,
1387,800,2548,0,
1395,799,2549,0,
1391,1006,2550,0,
1419,1422,2551,0,
1408,1410,2552,0,
1420,1418,2553,0,
1413,964,2554,0,
1406,0,2555,2,
1405,220,2556,1,
1417,990,2557,0,
1415,967,2558,0,
1403,867,2559,0,
1416,1414,2560,0,
205,1404,2561,0,
1401,1402,2562,0,
1399,0,2563,2,
1400,1398,2564,0,
1409,1168,2565,0,
1397,796,2566,0,
1412,906,2567,0,
1411,849,2568,0,
1396,0,2569,2,
420,1431,2570,0,
1427,916,2571,0,
1428,794,2572,0,
1439,0,2573,2,
1444,406,2574,0,
1426,1006,2575,0,
1438,954,2576,0,
407,1383,2577,1,
1430,233,2578,1,
1069,1442,2579,0,
1425,225,2580,1,
1424,0,2581,2,
740,1433,2582,0,
1447,1446,2583,0,
1453,0,2584,2,
1455,397,2585,0,
1425,0,2586,2,
1457,872,2587,0,
1247,894,2588,0,
1172,1133,2589,0,
1456,0,2590,2,
1377,0,2591,2,
1430,0,2592,2,
1449,1024,2593,0,
1458,185,2594,0,
1452,975,2595,0,
1451,398,2596,0,
1405,0,2597,2,
1450,0,2598,2,
1384,0,2599,2,
202,1471,2600,0,
224,1460,2601,0,
222,1467,2602,0,
1461,1068,2603,0,
1465,873,2604,0,
1470,0,2605,2,
1463,839,2606,0,
1459,922,2607,0,
1462,989,2608,0,
174,1469,2609,0,
201,1468,2610,0,
1473,0,2611,2,
1478,1005,2612,0,
238,1479,2613,0,
1482,878,2614,0,
1477,948,2615,0,
1481,878,2616,0,
1480,0,2617,2,
1484,0,2618,2,
1475,948,2619,0,
1484,753,2620,1,
1487,0,2621,2,
428,1491,2622,0,
1486,980,2623,0,
1490,243,2624,1,
1489,857,2625,0,
1493,1025,2626,0,
1490,0,2627,2,
1169,881,2628,0,
1495,876,2629,0,
1496,1017,2630,0,
1497,1062,2631,0,
1506,1505,2632,0,
1498,1504,2633,0,
1503,0,2634,2,
1514,1513,2635,0,
1515,1512,2636,0,
1508,0,2637,2,
1507,1012,2638,0,
1551,0,2639,2,
1509,1510,2640,0,
1511,1024,2641,0,
1561,0,2642,2,
1517,1030,2643,0,
1516,913,2644,0,
1494,0,2645,2,
1446,1172,2646,0,
1519,826,2647,0,
1521,0,2648,2,
242,1525,2649,0,
1524,0,2650,2,
1523,1522,2651,0,
1446,1152,2652,0,
1520,837,2653,0,
1534,891,2654,0,
1542,956,2655,0,
1537,874,2656,0,
1543,1547,2657,0,
1536,1538,2658,0,
1535,1231,2659,0,
1532,966,2660,0,
1533,877,2661,0,
1488,969,2662,0,
1548,831,2663,0,
1540,915,2664,0,
1539,927,2665,0,
1531,915,2666,0,
1215,854,2667,0,
1545,796,2668,0,
1546,867,2669,0,
1544,1031,2670,0,
1527,1529,2671,0,
1528,1526,2672,0,
1192,868,2673,0,
1549,869,2674,0,
1463,1557,2675,0,
1558,1100,2676,0,
1568,819,2677,0,
1388,854,2678,0,
1581,998,2679,0,
1585,1586,2680,0,
1580,905,2681,0,
1584,827,2682,0,
1582,1583,2683,0,
1564,1563,2684,0,
1579,852,2685,0,
1370,1566,2686,0,
1577,1572,2687,0,
1576,937,2688,0,
1575,1032,2689,0,
1571,793,2690,0,
1281,1574,2691,0,
1562,814,2692,0,
1264,1567,2693,0,
1573,937,2694,0,
1578,0,2695,2,
1595,835,2696,0,
1613,1030,2697,0,
1610,1547,2698,0,
446,1607,2699,0,
1611,967,2700,0,
1600,1599,2701,0,
1591,1592,2702,0,
1594,903,2703,0,
1608,1588,2704,0,
1606,898,2705,0,
1590,871,2706,0,
1609,820,2707,0,
1596,837,2708,0,
1605,960,2709,0,
1604,932,2710,0,
1601,986,2711,0,
1603,940,2712,0,
1597,1022,2713,0,
1602,939,2714,0,
1335,1023,2715,0,
1621,971,2716,0,
1634,854,2717,0,
1614,1000,2718,0,
1624,852,2719,0,
1625,1012,2720,0,
1631,966,2721,0,
1615,1620,2722,0,
1628,875,2723,0,
1626,1026,2724,0,
1619,941,2725,0,
1630,823,2726,0,
1566,1557,2727,0,
1626,933,2728,0,
1622,1040,2729,0,
1633,1030,2730,0,
448,1623,2731,0,
1618,878,2732,0,
1627,847,2733,0,
1629,981,2734,0,
1292,800,2735,0,
1647,1648,2736,0,
1651,912,2737,0,
1652,1653,2738,0,
1635,800,2739,0,
1642,1005,2740,0,
1645,1646,2741,0,
1640,1654,2742,0,
1344,864,2743,0,
1650,862,2744,0,
1637,1029,2745,0,
1190,883,2746,0,
1639,834,2747,0,
1641,880,2748,0,
1669,997,2749,0,
1664,974,2750,0,
1318,820,2751,0,
1662,1661,2752,0,
1393,926,2753,0,
1567,1258,2754,0,
1680,1007,2755,0,
1657,1658,2756,0,
1666,1006,2757,0,
1677,1392,2758,0,
1668,1014,2759,0,
1663,1667,2760,0,
1151,611,2761,0,
1670,963,2762,0,
1678,1041,2763,0,
1676,1675,2764,0,
1673,889,2765,0,
1674,1020,2766,0,
1684,837,2767,0,
1686,801,2768,0,
1685,1062,2769,0,
1706,1708,2770,0,
1683,1693,2771,0,
1700,1701,2772,0,
1699,1702,2773,0,
1697,869,2774,0,
1690,1548,2775,0,
1447,1374,2776,0,
1189,916,2777,0,
1191,902,2778,0,
1696,1694,2779,0,
1695,802,2780,0,
1133,1231,2781,0,
1705,873,2782,0,
450,1689,2783,0,
1707,919,2784,0,
1692,793,2785,0,
1704,1152,2786,0,
1710,0,2787,2,
1709,964,2788,0,
1687,913,2789,0,
1215,944,2790,0,
1717,1716,2791,0,
1724,815,2792,0,
1725,881,2793,0,
1719,1720,2794,0,
1721,964,2795,0,
1715,966,2796,0,
1387,1011,2797,0,
1175,953,2798,0,
1462,1199,2799,0,
1712,1711,2800,0,
1714,906,2801,0,
1728,1729,2802,0,
1726,916,2803,0,
1732,935,2804,0,
1745,803,2805,0,
1744,1523,2806,0,
1753,872,2807,0,
1747,906,2808,0,
1743,1748,2809,0,
1746,896,2810,0,
1174,1566,2811,0,
1736,1735,2812,0,
1739,956,2813,0,
1731,1733,2814,0,
1462,1041,2815,0,
1742,798,2816,0,
1750,845,2817,0,
1752,1021,2818,0,
1749,932,2819,0,
1751,1032,2820,0,
1738,1737,2821,0,
1730,1034,2822,0,
1734,900,2823,0,
1741,1740,2824,0,
1409,996,2825,0,
1767,816,2826,0,
1766,1765,2827,0,
1768,888,2828,0,
1757,1008,2829,0,
1477,879,2830,0,
1762,873,2831,0,
1704,1488,2832,0,
1761,834,2833,0,
1756,1758,2834,0,
1759,1010,2835,0,
1774,1014,2836,0,
1556,949,2837,0,
1519,1193,2838,0,
1324,900,2839,0,
1772,994,2840,0,
1777,1776,2841,0,
1775,807,2842,0,
1703,1435,2843,0,
1778,1780,2844,0,
1534,1175,2845,0,
1797,876,2846,0,
1612,938,2847,0,
1790,957,2848,0,
1792,1793,2849,0,
1298,803,2850,0,
1176,990,2851,0,
1318,972,2852,0,
1788,875,2853,0,
1787,1035,2854,0,
1781,968,2855,0,
1800,903,2856,0,
1785,826,2857,0,
1784,871,2858,0,
1783,838,2859,0,
1789,1791,2860,0,
1795,982,2861,0,
1798,1799,2862,0,
1169,960,2863,0,
1816,849,2864,0,
1817,988,2865,0,
1802,1312,2866,0,
1336,844,2867,0,
1814,1608,2868,0,
1810,1002,2869,0,
1812,956,2870,0,
1809,842,2871,0,
1801,1261,2872,0,
1807,1808,2873,0,
1803,913,2874,0,
1300,1295,2875,0,
1819,958,2876,0,
1811,823,2877,0,
1678,820,2878,0,
1821,887,2879,0,
1844,893,2880,0,
1838,1840,2881,0,
1852,1846,2882,0,
1835,1849,2883,0,
1836,907,2884,0,
1842,971,2885,0,
1841,905,2886,0,
1833,944,2887,0,
1845,1847,2888,0,
1848,872,2889,0,
1828,890,2890,0,
1829,957,2891,0,
1352,925,2892,0,
782,1834,2893,0,
1264,910,2894,0,
1843,837,2895,0,
1832,810,2896,0,
1839,980,2897,0,
1347,838,2898,0,
1837,830,2899,0,
1830,911,2900,0,
1825,1032,2901,0,
1853,946,2902,0,
1870,956,2903,0,
1857,1858,2904,0,
1447,1199,2905,0,
1626,805,2906,0,
1861,1364,2907,0,
1869,877,2908,0,
1872,1871,2909,0,
1876,1862,2910,0,
1873,1859,2911,0,
1855,1012,2912,0,
1868,888,2913,0,
1854,1002,2914,0,
1865,1863,2915,0,
1877,820,2916,0,
1866,1867,2917,0,
1381,971,2918,0,
1891,991,2919,0,
1880,892,2920,0,
1906,1883,2921,0,
1879,890,2922,0,
1893,898,2923,0,
1909,968,2924,0,
1890,912,2925,0,
1898,819,2926,0,
1904,942,2927,0,
1885,1881,2928,0,
1892,1882,2929,0,
1884,912,2930,0,
1346,1304,2931,0,
1897,1600,2932,0,
1899,982,2933,0,
1908,862,2934,0,
1894,838,2935,0,
1888,912,2936,0,
1896,920,2937,0,
1878,977,2938,0,
1910,911,2939,0,
1895,1021,2940,0,
1913,845,2941,0,
1172,895,2942,0,
1922,963,2943,0,
1926,1030,2944,0,
1925,1927,2945,0,
1936,1937,2946,0,
1935,1934,2947,0,
1923,1924,2948,0,
1921,1920,2949,0,
1780,1928,2950,0,
1911,1495,2951,0,
1915,1014,2952,0,
1804,1378,2953,0,
1373,1354,2954,0,
1912,994,2955,0,
1916,871,2956,0,
1917,807,2957,0,
1931,1930,2958,0,
1948,1945,2959,0,
1951,897,2960,0,
1949,1013,2961,0,
1938,898,2962,0,
1941,999,2963,0,
1940,923,2964,0,
1946,1944,2965,0,
1939,1037,2966,0,
1943,833,2967,0,
268,1950,2968,0,
1518,929,2969,0,
1960,1959,2970,0,
1446,1324,2971,0,
1160,926,2972,0,
1206,1352,2973,0,
1354,1247,2974,0,
1291,809,2975,0,
1957,819,2976,0,
1954,1956,2977,0,
1965,871,2978,0,
1970,1971,2979,0,
1961,1963,2980,0,
1974,835,2981,0,
1968,875,2982,0,
1966,1967,2983,0,
1206,815,2984,0,
1979,891,2985,0,
1533,902,2986,0,
1976,1006,2987,0,
1980,1040,2988,0,
1977,1975,2989,0,
1989,1017,2990,0,
1981,1277,2991,0,
1983,905,2992,0,
1985,1987,2993,0,
1988,1990,2994,0,
1993,798,2995,0,
1995,860,2996,0,
2005,2003,2997,0,
2004,903,2998,0,
2002,1005,2999,0,
2001,858,3000,0,
1999,1029,3001,0,
2006,2008,3002,0,
1996,875,3003,0,
1998,1024,3004,0,
1371,1001,3005,0,
2013,873,3006,0,
2010,2011,3007,0,
2012,875,3008,0,
1312,843,3009,0,
2016,2015,3010,0,
2019,994,3011,0,
1371,831,3012,0,
2018,858,3013,0,
2017,891,3014,0,
1248,1022,3015,0,
2020,887,3016,0,
2025,2024,3017,0,
2021,1036,3018,0,
2030,987,3019,0,
2031,878,3020,0,
2023,903,3021,0,
2028,2022,3022,0,
2037,2036,3023,0,
2034,2033,3024,0,
2032,2035,3025,0,
1825,841,3026,0,
2042,2041,3027,0,
2039,2040,3028,0,
1291,794,3029,0,
2047,941,3030,0,
2046,2045,3031,0,
1565,995,3032,0,
2055,2054,3033,0,
2056,2057,3034,0,
2052,2053,3035,0,
1194,824,3036,0,
2051,1017,3037,0,
2050,2048,3038,0,
2058,970,3039,0,
2062,2063,3040,0,
2067,2068,3041,0,
2064,1005,3042,0,
2065,2066,3043,0,
2059,980,3044,0,
1671,1338,3045,0,
1472,825,3046,0,
2071,2072,3047,0,
2073,903,3048,0,
2075,994,3049,0,
2078,2079,3050,0,
2081,2076,3051,0,
2084,2083,3052,0,
2082,1005,3053,0,
2085,957,3054,0,
2086,2087,3055,0,
2088,2090,3056,0,
2089,987,3057,0,
1394,1346,3058,0,
2092,2093,3059,0,
2091,2095,3060,0,
2094,916,3061,0,
2100,955,3062,0,
2099,2097,3063,0,
2102,992,3064,0,
1472,1015,3065,0,
1393,958,3066,0,
2103,2104,3067,0,
2106,813,3068,0,
2112,1006,3069,0,
2114,2115,3070,0,
2111,1029,3071,0,
2107,944,3072,0,
2108,852,3073,0,
2109,905,3074,0,
1141,869,3075,0,
1394,1033,3076,0,
1475,994,3077,0,
1394,1952,3078,0,
2118,943,3079,0,
2119,2120,3080,0,
2124,2125,3081,0,
1302,1151,3082,0,
2127,905,3083,0,
2129,2128,3084,0,
2126,869,3085,0,
2135,2136,3086,0,
2133,1097,3087,0,
2134,873,3088,0,
2131,2130,3089,0,
1804,935,3090,0,
2137,1037,3091,0,
2138,967,3092,0,
1825,803,3093,0,
2140,2139,3094,0,
2141,2142,3095,0,
1156,837,3096,0,
2146,936,3097,0,
2145,1025,3098,0,
2154,882,3099,0,
2148,1031,3100,0,
2149,2150,3101,0,
2153,2152,3102,0,
2151,811,3103,0,
2156,2155,3104,0,
2158,833,3105,0,
2160,1246,3106,0,
1260,995,3107,0,
2163,2161,3108,0,
2164,982,3109,0,
2171,795,3110,0,
2169,990,3111,0,
2168,954,3112,0,
1284,998,3113,0,
2166,994,3114,0,
2165,2167,3115,0,
2170,0,3116,2,
1519,1250,3117,0,
1659,809,3118,0,
1534,1302,3119,0,
2176,1020,3120,0,
2174,2175,3121,0,
2179,864,3122,0,
2178,2183,3123,0,
2181,887,3124,0,
2185,2186,3125,0,
1570,838,3126,0,
2187,1081,3127,0,
2194,981,3128,0,
2191,2192,3129,0,
1556,1952,3130,0,
2188,979,3131,0,
2190,956,3132,0,
2205,2204,3133,0,
2197,0,3134,2,
2200,2201,3135,0,
2211,1097,3136,0,
2208,2212,3137,0,
2128,2210,3138,0,
2209,954,3139,0,
2151,1023,3140,0,
1880,904,3141,0,
2207,0,3142,2,
1335,1084,3143,0,
2214,804,3144,0,
2215,611,3145,0,
2213,931,3146,0,
2220,2217,3147,0,
2216,1030,3148,0,
2219,2218,3149,0,
1698,961,3150,0,
1801,882,3151,0,
2230,882,3152,0,
2224,918,3153,0,
1942,1905,3154,0,
1304,1547,3155,0,
2226,2233,3156,0,
2223,887,3157,0,
2228,939,3158,0,
2225,2227,3159,0,
2221,948,3160,0,
2232,1030,3161,0,
1168,1978,3162,0,
2231,1034,3163,0,
2222,1025,3164,0,
2239,986,3165,0,
2241,2240,3166,0,
2234,0,3167,2,
2238,2237,3168,0,
2243,977,3169,0,
2245,907,3170,0,
1802,1519,3171,0,
1882,2246,3172,0,
2247,1008,3173,0,
2244,0,3174,2,
2248,911,3175,0,
2251,2252,3176,0,
2253,1020,3177,0,
1373,1231,3178,0,
1854,1022,3179,0,
2255,940,3180,0,
1677,1134,3181,0,
2256,980,3182,0,
2258,2259,3183,0,
1703,1260,3184,0,
2260,2262,3185,0,
1998,901,3186,0,
2263,796,3187,0,
2265,807,3188,0,
2267,2268,3189,0,
2266,1879,3190,0,
1435,1338,3191,0,
1134,1248,3192,0,
2272,917,3193,0,
2271,941,3194,0,
2270,887,3195,0,
2279,2278,3196,0,
2274,2273,3197,0,
2276,2277,3198,0,
2281,977,3199,0,
2284,954,3200,0,
2283,2282,3201,0,
2290,2285,3202,0,
2286,2287,3203,0,
2292,2293,3204,0,
2294,2295,3205,0,
23,2244,3206,1,
2303,2302,3207,0,
2304,1006,3208,0,
2300,970,3209,0,
23,2244,3210,0,
2307,2105,3211,0,
2308,2309,3212,0,
2311,2312,3213,0,
2319,2316,3214,0,
2318,912,3215,0,
2317,984,3216,0,
2315,2314,3217,0,
2320,2322,3218,0,
1518,902,3219,0,
2326,2325,3220,0,
2327,2328,3221,0,
1206,1248,3222,0,
2330,2329,3223,0,
1172,1227,3224,0,
2337,871,3225,0,
2332,2334,3226,0,
2335,872,3227,0,
2333,986,3228,0,
2340,2339,3229,0,
2342,858,3230,0,
2341,880,3231,0,
787,2244,3232,0,
1656,0,3233,2,
2343,1024,3234,0,
2338,928,3235,0,
2345,2344,3236,0,
2347,2346,3237,0,
2349,2207,3238,0,
1610,1802,3239,0,
2352,875,3240,0,
2351,2350,3241,0,
2353,828,3242,0,
77,2244,3243,0,
2356,2354,3244,0,
2355,2357,3245,0,
2359,2360,3246,0,
2358,2361,3247,0,
1177,802,3248,0,
2362,0,3249,2,
2363,893,3250,0,
2365,0,3251,2,
2366,832,3252,0,
1417,1018,3253,0,
2369,967,3254,0,
2151,1877,3255,0,
1556,1905,3256,0,
1447,1619,3257,0,
2375,1014,3258,0,
2372,0,3259,2,
1801,1176,3260,0,
2377,2378,3261,0,
2379,1019,3262,0,
1115,2244,3263,0,
1157,2383,3264,0,
2380,1168,3265,0,
2381,2382,3266,0,
2387,927,3267,0,
2386,1167,3268,0,
2385,2384,3269,0,
2401,2389,3270,0,
2403,1242,3271,0,
2399,1231,3272,0,
1240,2388,3273,0,
2394,892,3274,0,
2391,2390,3275,0,
2393,1191,3276,0,
2402,2400,3277,0,
1256,2397,3278,0,
1213,2396,3279,0,
2424,2422,3280,0,
1271,2433,3281,0,
2454,2456,3282,0,
2447,2449,3283,0,
2440,1264,3284,0,
1260,2439,3285,0,
2435,922,3286,0,
2437,1021,3287,0,
2421,885,3288,0,
2428,2425,3289,0,
2432,2420,3290,0,
2408,1261,3291,0,
2427,1037,3292,0,
2414,2419,3293,0,
2462,1258,3294,0,
2411,825,3295,0,
2410,2409,3296,0,
2441,1311,3297,0,
2460,1304,3298,0,
2450,1306,3299,0,
2418,2417,3300,0,
2461,2406,3301,0,
2413,945,3302,0,
1298,2423,3303,0,
2458,1321,3304,0,
1325,2459,3305,0,
2412,816,3306,0,
2445,1324,3307,0,
2442,2446,3308,0,
2426,1287,3309,0,
1291,2429,3310,0,
2453,902,3311,0,
2443,2448,3312,0,
1272,2431,3313,0,
2451,2407,3314,0,
2430,942,3315,0,
2444,2436,3316,0,
2416,2415,3317,0,
2434,1303,3318,0,
2481,1340,3319,0,
2472,950,3320,0,
2501,2468,3321,0,
2482,1227,3322,0,
2489,2484,3323,0,
2478,932,3324,0,
2487,881,3325,0,
2469,1339,3326,0,
2480,2496,3327,0,
1264,2491,3328,0,
2493,944,3329,0,
2502,2471,3330,0,
2477,2486,3331,0,
1350,2498,3332,0,
2503,2505,3333,0,
2504,1351,3334,0,
2509,2507,3335,0,
2508,1353,3336,0,
2497,2500,3337,0,
2506,2499,3338,0,
2465,1333,3339,0,
2473,1334,3340,0,
2474,2488,3341,0,
2467,1328,3342,0,
2490,2483,3343,0,
2517,1364,3344,0,
2513,1357,3345,0,
2511,2512,3346,0,
2515,822,3347,0,
2520,987,3348,0,
2534,2533,3349,0,
2524,0,3350,2,
732,2523,3351,0,
2527,2526,3352,0,
2530,973,3353,0,
2529,2528,3354,0,
1378,2505,3355,0,
2532,851,3356,0,
1392,2531,3357,0,
2548,2544,3358,0,
1407,2539,3359,0,
2542,0,3360,2,
2538,0,3361,2,
2537,219,3362,1,
214,2541,3363,0,
2543,223,3364,1,
2545,821,3365,0,
2547,803,3366,0,
2536,1023,3367,0,
2549,2550,3368,0,
2535,0,3369,2,
2552,2551,3370,0,
2554,2559,3371,0,
2566,1437,3372,0,
2561,0,3373,2,
2565,996,3374,0,
2558,2560,3375,0,
2556,231,3376,1,
2568,1441,3377,0,
2537,0,3378,2,
2564,2562,3379,0,
1443,2569,3380,0,
2557,1429,3381,0,
2582,0,3382,2,
2580,319,3383,1,
1454,2581,3384,0,
2579,0,3385,2,
2577,2574,3386,1,
2575,2480,3387,0,
2578,2570,3388,1,
2572,1448,3389,0,
2570,0,3390,2,
2578,0,3391,2,
2577,0,3392,2,
2574,0,3393,2,
2585,0,3394,2,
2580,0,3395,2,
225,2586,3396,0,
2588,1464,3397,0,
2596,0,3398,2,
1466,2590,3399,0,
2587,2595,3400,0,
233,2592,3401,0,
216,2599,3402,0,
2543,0,3403,2,
2583,1258,3404,0,
220,2597,3405,0,
2556,0,3406,2,
2594,0,3407,2,
209,2591,3408,0,
2606,1476,3409,0,
2607,1483,3410,0,
2609,0,3411,2,
2600,0,3412,2,
2582,1453,3413,1,
1474,2605,3414,0,
2603,0,3415,2,
2610,0,3416,2,
2601,0,3417,2,
2602,0,3418,2,
2618,1082,3419,0,
2613,0,3420,2,
1492,2611,3421,0,
1488,2395,3422,0,
2615,1154,3423,0,
2619,2614,3424,0,
2624,0,3425,2,
2625,2626,3426,0,
1494,2622,3427,1,
243,2627,3428,0,
2628,1500,3429,0,
2629,1501,3430,0,
2630,1502,3431,0,
2638,2641,3432,0,
2639,2642,3433,0,
2622,0,3434,2,
2636,1518,3435,0,
2640,2635,3436,0,
2643,1428,3437,0,
2651,2653,3438,0,
2647,1530,3439,0,
2649,0,3440,2,
2652,930,3441,0,
1541,2648,3442,0,
2670,1560,3443,0,
2654,986,3444,0,
2659,2658,3445,0,
2656,965,3446,0,
2665,1553,3447,0,
2667,1555,3448,0,
1550,2673,3449,0,
2664,1554,3450,0,
2663,1028,3451,0,
2655,2501,3452,0,
2657,2668,3453,0,
2661,1552,3454,0,
2660,926,3455,0,
2671,2672,3456,0,
2662,866,3457,0,
1570,2485,3458,0,
2676,0,3459,2,
2691,2682,3460,0,
2679,808,3461,0,
2688,1593,3462,0,
2687,2681,3463,0,
2685,1598,3464,0,
2693,940,3465,0,
2678,1589,3466,0,
2686,2677,3467,0,
1612,2389,3468,0,
2694,1019,3469,0,
2692,2690,3470,0,
775,2699,3471,1,
2712,1392,3472,0,
2705,1632,3473,0,
2708,973,3474,0,
2698,2707,3475,0,
2700,2697,3476,0,
2696,1616,3477,0,
2715,1026,3478,0,
2699,0,3479,2,
2710,2709,3480,0,
2711,2714,3481,0,
2704,935,3482,0,
2731,0,3483,2,
2725,1078,3484,0,
2732,936,3485,0,
2729,941,3486,0,
2720,2721,3487,0,
2727,1261,3488,0,
2728,901,3489,0,
2724,1644,3490,0,
2717,1638,3491,0,
2734,2723,3492,0,
2716,2718,3493,0,
2743,951,3494,0,
2575,805,3495,0,
1373,2668,3496,0,
2746,1672,3497,0,
2736,2738,3498,0,
2735,1655,3499,0,
2744,1577,3500,0,
2745,929,3501,0,
2747,1671,3502,0,
2739,1660,3503,0,
2748,1679,3504,0,
2763,822,3505,0,
2766,1698,3506,0,
1677,2533,3507,0,
2751,1682,3508,0,
2712,973,3509,0,
2752,2440,3510,0,
2753,967,3511,0,
2759,2680,3512,0,
2765,925,3513,0,
2764,2762,3514,0,
1108,2731,3515,1,
2754,1691,3516,0,
2760,2757,3517,0,
2783,0,3518,2,
2769,2767,3519,0,
2778,1723,3520,0,
2789,2510,3521,0,
2571,1231,3522,0,
2788,935,3523,0,
2786,1727,3524,0,
2771,2770,3525,0,
2772,2773,3526,0,
2779,2780,3527,0,
2784,2781,3528,0,
2777,919,3529,0,
2803,1754,3530,0,
2799,2798,3531,0,
779,2783,3532,1,
1659,2587,3533,0,
2793,2792,3534,0,
2790,870,3535,0,
2794,2795,3536,0,
2797,2796,3537,0,
2821,2822,3538,0,
2804,962,3539,0,
2813,943,3540,0,
2815,1764,3541,0,
2812,2814,3542,0,
2806,2805,3543,0,
2823,953,3544,0,
2809,2808,3545,0,
2811,1409,3546,0,
2820,2818,3547,0,
2817,2819,3548,0,
2807,2824,3549,0,
2835,1033,3550,0,
2825,1769,3551,0,
2826,1771,3552,0,
2423,851,3553,0,
2829,1773,3554,0,
2828,861,3555,0,
2567,1302,3556,0,
2833,2834,3557,0,
2832,1547,3558,0,
2827,1677,3559,0,
2841,2844,3560,0,
2845,1796,3561,0,
2843,925,3562,0,
2842,2836,3563,0,
2839,927,3564,0,
2838,985,3565,0,
2828,924,3566,0,
2837,1003,3567,0,
2861,1818,3568,0,
2855,1813,3569,0,
2847,866,3570,0,
2854,2494,3571,0,
2857,2858,3572,0,
2850,1806,3573,0,
2851,810,3574,0,
2848,1805,3575,0,
1548,2853,3576,0,
2866,1831,3577,0,
2834,985,3578,0,
2878,921,3579,0,
2863,1369,3580,0,
2877,1850,3581,0,
2876,1851,3582,0,
2869,2870,3583,0,
2872,1026,3584,0,
2873,2874,3585,0,
1194,2494,3586,0,
2867,1823,3587,0,
2864,1822,3588,0,
2890,853,3589,0,
2889,2854,3590,0,
2479,877,3591,0,
2888,1677,3592,0,
2884,1346,3593,0,
2898,1011,3594,0,
2893,0,3595,2,
2899,2900,3596,0,
2901,966,3597,0,
2887,2885,3598,0,
2894,970,3599,0,
2892,1864,3600,0,
2881,1151,3601,0,
2897,1874,3602,0,
2883,2882,3603,0,
2914,1903,3604,0,
2906,884,3605,0,
2909,2908,3606,0,
2910,1141,3607,0,
2918,1907,3608,0,
2917,2827,3609,0,
2913,1901,3610,0,
2912,1902,3611,0,
2626,930,3612,0,
2911,2907,3613,0,
2708,891,3614,0,
2677,1001,3615,0,
2749,2905,3616,0,
2902,808,3617,0,
2929,2933,3618,0,
2940,2930,3619,0,
2765,2921,3620,0,
2919,2925,3621,0,
2928,2939,3622,0,
2937,804,3623,0,
2923,2922,3624,0,
2927,1918,3625,0,
2946,2947,3626,0,
2945,2944,3627,0,
2951,2952,3628,0,
2949,2948,3629,0,
2953,1942,3630,0,
2943,1323,3631,0,
2954,1732,3632,0,
2957,2956,3633,0,
2942,824,3634,0,
2656,929,3635,0,
2968,0,3636,2,
2380,1166,3637,0,
2959,1177,3638,0,
2963,1955,3639,0,
2965,2964,3640,0,
2961,803,3641,0,
2967,1958,3642,0,
2976,1355,3643,0,
2975,1972,3644,0,
2977,2970,3645,0,
2969,1962,3646,0,
2974,1969,3647,0,
2623,839,3648,0,
2979,2722,3649,0,
2983,2981,3650,0,
2985,1984,3651,0,
2989,2988,3652,0,
2986,1986,3653,0,
2984,1982,3654,0,
2987,1991,3655,0,
2990,2482,3656,0,
2996,2000,3657,0,
2995,2007,3658,0,
2674,2614,3659,0,
2997,2998,3660,0,
3004,878,3661,0,
3001,2009,3662,0,
3000,2999,3663,0,
2910,1519,3664,0,
3007,3008,3665,0,
3009,2014,3666,0,
3013,2027,3667,0,
3012,889,3668,0,
3010,3011,3669,0,
3014,2029,3670,0,
3015,1021,3671,0,
3019,3020,3672,0,
2865,2813,3673,0,
3018,3016,3674,0,
2766,899,3675,0,
3024,3025,3676,0,
3027,1786,3677,0,
3028,1942,3678,0,
3029,2043,3679,0,
2445,896,3680,0,
3030,2049,3681,0,
3035,3037,3682,0,
3036,832,3683,0,
2679,2902,3684,0,
1543,2567,3685,0,
2503,996,3686,0,
3033,1619,3687,0,
3044,2070,3688,0,
2615,926,3689,0,
3042,2531,3690,0,
3027,2424,3691,0,
2683,2560,3692,0,
3041,3043,3693,0,
3046,2080,3694,0,
3045,2074,3695,0,
2395,1566,3696,0,
2880,803,3697,0,
3047,2655,3698,0,
3050,3048,3699,0,
3054,2881,3700,0,
2732,2558,3701,0,
3052,2682,3702,0,
3053,798,3703,0,
3055,3056,3704,0,
3059,3060,3705,0,
3061,2101,3706,0,
1703,2495,3707,0,
3062,1548,3708,0,
2673,1033,3709,0,
1133,3064,3710,0,
2476,1344,3711,0,
2921,1392,3712,0,
2976,862,3713,0,
3065,902,3714,0,
3066,795,3715,0,
3068,2110,3716,0,
3069,2393,3717,0,
2962,1570,3718,0,
3075,927,3719,0,
3003,1690,3720,0,
3079,2121,3721,0,
3076,976,3722,0,
2784,1463,3723,0,
2823,832,3724,0,
2943,3042,3725,0,
3054,1177,3726,0,
3084,3083,3727,0,
3086,929,3728,0,
3088,2143,3729,0,
3092,2147,3730,0,
1543,2644,3731,0,
3094,1304,3732,0,
3091,1802,3733,0,
3097,3098,3734,0,
3103,2159,3735,0,
3102,3104,3736,0,
2619,953,3737,0,
3101,3100,3738,0,
3106,1264,3739,0,
3105,2162,3740,0,
3086,1428,3741,0,
2926,1295,3742,0,
1678,2554,3743,0,
2895,1462,3744,0,
1117,3116,3745,0,
3115,3114,3746,0,
3113,3112,3747,0,
3118,941,3748,0,
3109,2172,3749,0,
2173,3116,3750,0,
3117,1877,3751,0,
2924,2961,3752,0,
3121,3120,3753,0,
3119,2182,3754,0,
3122,2184,3755,0,
2856,1463,3756,0,
2595,817,3757,0,
3087,825,3758,0,
2707,3028,3759,0,
3126,2189,3760,0,
3128,2198,3761,0,
3130,808,3762,0,
3131,2202,3763,0,
2716,1417,3764,0,
3133,1248,3765,0,
2547,930,3766,0,
3138,3137,3767,0,
3140,830,3768,0,
2788,1570,3769,0,
3139,976,3770,0,
2445,1151,3771,0,
787,3142,3772,1,
2558,1168,3773,0,
3143,994,3774,0,
2833,3136,3775,0,
2880,2962,3776,0,
3148,947,3777,0,
3145,3146,3778,0,
3142,787,3779,0,
3151,2229,3780,0,
3156,3163,3781,0,
3153,2236,3782,0,
3155,3154,3783,0,
3152,2235,3784,0,
2890,3064,3785,0,
3160,3164,3786,0,
3167,32,3787,0,
2703,1084,3788,0,
2244,3142,3789,1,
3165,3139,3790,0,
3169,1347,3791,0,
3170,2250,3792,0,
3176,3177,3793,0,
3142,3174,3794,0,
3178,1952,3795,0,
3169,973,3796,0,
3182,1193,3797,0,
3180,2257,3798,0,
3057,799,3799,0,
3148,2750,3800,0,
3186,915,3801,0,
2835,973,3802,0,
3188,2269,3803,0,
3189,3190,3804,0,
2774,2636,3805,0,
3191,909,3806,0,
2889,799,3807,0,
3193,2280,3808,0,
3091,1732,3809,0,
3196,3197,3810,0,
3199,2704,3811,0,
3201,3200,3812,0,
2643,843,3813,0,
3202,3203,3814,0,
77,3142,3815,1,
3205,3204,3816,0,
3142,77,3817,0,
3206,0,3818,2,
1347,3127,3819,0,
3210,0,3820,2,
2409,808,3821,0,
3211,3212,3822,0,
1116,3174,3823,1,
1690,2759,3824,0,
2884,935,3825,0,
3214,3216,3826,0,
1298,2853,3827,0,
3217,3215,3828,0,
3116,2244,3829,0,
787,3174,3830,1,
3219,2331,3831,0,
3085,2635,3832,0,
3221,3220,3833,0,
2888,2729,3834,0,
2336,3224,3835,0,
3228,3225,3836,0,
3226,3227,3837,0,
3232,0,3838,2,
3235,3234,3839,0,
3230,3231,3840,0,
3213,3165,3841,0,
77,3174,3842,1,
23,3142,3843,1,
1129,3142,3844,1,
3237,3236,3845,0,
3199,1081,3846,0,
3238,0,3847,2,
3241,3240,3848,0,
3142,39,3849,0,
2979,2498,3850,0,
2673,1287,3851,0,
1612,2462,3852,0,
2559,3064,3853,0,
3174,95,3854,0,
3243,0,3855,2,
3245,3244,3856,0,
3247,3246,3857,0,
3248,902,3858,0,
3182,1998,3859,0,
3033,1174,3860,0,
3250,2364,3861,0,
3252,2368,3862,0,
2732,2427,3863,0,
3253,1038,3864,0,
3254,2370,3865,0,
2372,3142,3866,1,
3256,1567,3867,0,
2625,960,3868,0,
3259,2207,3869,0,
785,3174,3870,1,
3260,839,3871,0,
3261,3262,3872,0,
3263,0,3873,2,
792,3787,3874,1,
1189,3264,3875,0,
2395,3266,3876,0,
3267,959,3877,0,
3269,2404,3878,0,
2392,3265,3879,0,
3268,2398,3880,0,
2463,3273,3881,0,
2464,3279,3882,0,
2438,3274,3883,0,
3275,3271,3884,0,
3270,2405,3885,0,
3276,1033,3886,0,
3272,2455,3887,0,
3308,3299,3888,0,
3287,1337,3889,0,
3316,3306,3890,0,
3315,2492,3891,0,
3290,2475,3892,0,
2466,3289,3893,0,
1346,3313,3894,0,
3285,3284,3895,0,
3312,1035,3896,0,
2479,3280,3897,0,
1342,3296,3898,0,
3300,3317,3899,0,
2476,3294,3900,0,
3295,1012,3901,0,
3302,1038,3902,0,
3318,1304,3903,0,
3307,2496,3904,0,
3303,2495,3905,0,
3292,829,3906,0,
3291,3288,3907,0,
2485,3305,3908,0,
3314,3298,3909,0,
3286,2494,3910,0,
3309,3310,3911,0,
3282,906,3912,0,
3281,1133,3913,0,
3311,2470,3914,0,
3335,3336,3915,0,
3337,3343,3916,0,
3341,3334,3917,0,
3325,882,3918,0,
3327,2514,3919,0,
3326,2521,3920,0,
3332,3333,3921,0,
3330,3331,3922,0,
3321,3322,3923,0,
3324,1356,3924,0,
3339,3340,3925,0,
3347,846,3926,0,
2525,3345,3927,0,
3348,1148,3928,0,
3357,935,3929,0,
3355,1421,3930,0,
2540,3343,3931,0,
3353,2546,3932,0,
3351,0,3933,2,
3354,3352,3934,0,
141,3350,3935,0,
3356,1423,3936,0,
418,3360,3937,1,
2555,3361,3938,0,
3366,1436,3939,0,
3367,1440,3940,0,
742,3369,3941,0,
3363,0,3942,2,
3364,232,3943,1,
3365,1434,3944,0,
3362,0,3945,2,
219,3378,3946,0,
3380,0,3947,2,
3381,3377,3948,0,
3370,2571,3949,0,
3376,322,3950,1,
3371,1445,3951,0,
3374,3379,3952,0,
3383,0,3953,2,
3387,1472,3954,0,
3384,0,3955,2,
3364,0,3956,2,
3391,3390,3957,0,
2584,3382,3958,0,
3376,0,3959,2,
751,3360,3960,0,
3389,2593,3961,0,
3392,3393,3962,0,
3386,3385,3963,0,
1399,3351,3964,1,
3404,2608,3965,0,
223,3403,3966,0,
231,3406,3967,0,
1485,3407,3968,0,
3408,0,3969,2,
3400,1078,3970,0,
3401,0,3971,2,
3405,0,3972,2,
3399,0,3973,2,
3362,321,3974,1,
3396,0,3975,2,
3402,0,3976,2,
319,3395,3977,0,
3397,2604,3978,0,
3409,2612,3979,0,
2620,3399,3980,1,
3386,2579,3981,1,
3383,2585,3982,1,
3413,0,3983,2,
3424,2623,3984,0,
2621,3420,3985,0,
3414,0,3986,2,
3423,973,3987,0,
3422,1189,3988,0,
3421,0,3989,2,
3419,0,3990,2,
3426,1499,3991,0,
3429,2632,3992,0,
3428,0,3993,2,
2644,3432,3994,0,
2645,3434,3995,0,
3436,3435,3996,0,
3433,0,3997,2,
3441,2669,3998,0,
3439,2666,3999,0,
3264,1556,4000,0,
1559,3442,4001,1,
3451,1569,4002,0,
3455,976,4003,0,
3453,3445,4004,0,
3450,3449,4005,0,
3448,2674,4006,0,
3447,1393,4007,0,
3452,817,4008,0,
3444,1565,4009,0,
3446,958,4010,0,
2695,3459,4011,0,
2660,3458,4012,0,
3442,0,4013,2,
3465,965,4014,0,
3461,804,4015,0,
3469,888,4016,0,
3460,2703,4017,0,
3467,1617,4018,0,
3466,2706,4019,0,
3464,2701,4020,0,
3468,805,4021,0,
3482,852,4022,0,
3473,1174,4023,0,
3474,1643,4024,0,
3475,1649,4025,0,
3481,3480,4026,0,
1105,3479,4027,0,
1612,3454,4028,0,
3478,2730,4029,0,
3472,1636,4030,0,
3484,1665,4031,0,
3490,1250,4032,0,
3488,3489,4033,0,
1108,3483,4034,0,
3491,1610,4035,0,
3493,1659,4036,0,
3485,959,4037,0,
3496,1688,4038,0,
3495,832,4039,0,
2758,3501,4040,0,
3498,2691,4041,0,
3500,2411,4042,0,
2750,3348,4043,0,
3503,2756,4044,0,
3502,883,4045,0,
3494,1681,4046,0,
3511,1722,4047,0,
3509,1718,4048,0,
3507,3510,4049,0,
3514,3319,4050,0,
3516,2785,4051,0,
3506,949,4052,0,
3513,827,4053,0,
3505,1713,4054,0,
3512,2774,4055,0,
3515,0,4056,2,
3528,1755,4057,0,
3522,3523,4058,0,
3527,2738,4059,0,
3524,2802,4060,0,
3521,1038,4061,0,
1111,3518,4062,0,
3533,1084,4063,0,
3535,2816,4064,0,
3548,3547,4065,0,
3541,2830,4066,0,
3542,1134,4067,0,
3540,942,4068,0,
3544,808,4069,0,
3558,3553,4070,0,
3551,1619,4071,0,
3556,3555,4072,0,
3550,1782,4073,0,
3564,1815,4074,0,
3566,864,4075,0,
3565,2859,4076,0,
3561,2846,4077,0,
3562,820,4078,0,
2862,3504,4079,0,
3567,1820,4080,0,
2875,3573,4081,0,
3572,2868,4082,0,
2408,3576,4083,0,
3571,853,4084,0,
3570,1824,4085,0,
3581,3582,4086,0,
3587,1287,4087,0,
3473,1215,4088,0,
3578,862,4089,0,
3580,2879,4090,0,
3586,1875,4091,0,
3577,1166,4092,0,
3584,2891,4093,0,
3591,950,4094,0,
3601,1388,4095,0,
3599,996,4096,0,
3600,2915,4097,0,
3597,1177,4098,0,
3594,1889,4099,0,
3590,1028,4100,0,
3592,1905,4101,0,
455,3595,4102,0,
3610,926,4103,0,
3609,1919,4104,0,
3614,1933,4105,0,
3611,2932,4106,0,
3616,3605,4107,0,
3604,2924,4108,0,
3606,1703,4109,0,
3607,2926,4110,0,
3615,1932,4111,0,
3617,1929,4112,0,
1179,3627,4113,0,
3448,3432,4114,0,
3632,1953,4115,0,
3634,1952,4116,0,
3635,1964,4117,0,
3641,1973,4118,0,
3638,2972,4119,0,
3646,1612,4120,0,
2747,3302,4121,0,
3644,2982,4122,0,
3643,820,4123,0,
3304,1166,4124,0,
3457,909,4125,0,
3653,2993,4126,0,
3652,1172,4127,0,
3654,2992,4128,0,
3651,2991,4129,0,
3656,965,4130,0,
3659,3005,4131,0,
3658,3002,4132,0,
3661,3663,4133,0,
3465,1378,4134,0,
3664,2387,4135,0,
3666,3529,4136,0,
3667,3017,4137,0,
3670,3022,4138,0,
3671,3021,4139,0,
3673,1191,4140,0,
3676,1463,4141,0,
3675,2044,4142,0,
3678,1355,4143,0,
3679,3032,4144,0,
3681,3038,4145,0,
3597,1786,4146,0,
3680,1009,4147,0,
3684,2061,4148,0,
3683,2060,4149,0,
3646,2752,4150,0,
3689,2077,4151,0,
3691,2397,4152,0,
3697,835,4153,0,
3695,3049,4154,0,
3694,3051,4155,0,
3703,2096,4156,0,
3700,1003,4157,0,
3709,2105,4158,0,
3713,2113,4159,0,
3714,2116,4160,0,
3711,853,4161,0,
3710,2674,4162,0,
3712,2959,4163,0,
3582,3312,4164,0,
3715,3072,4165,0,
3717,972,4166,0,
3718,1804,4167,0,
3719,2122,4168,0,
3078,3720,4169,0,
3722,2123,4170,0,
3721,3080,4171,0,
3724,875,4172,0,
3725,3085,4173,0,
3723,894,4174,0,
3082,3666,4175,0,
3727,1256,4176,0,
3726,3087,4177,0,
3729,3095,4178,0,
3728,947,4179,0,
3731,3096,4180,0,
3732,3733,4181,0,
3572,3490,4182,0,
3735,1698,4183,0,
3741,921,4184,0,
3107,3739,4185,0,
3740,3108,4186,0,
3606,1192,4187,0,
3742,1194,4188,0,
3744,3743,4189,0,
3750,0,4190,2,
3745,0,4191,2,
3751,3752,4192,0,
3748,2180,4193,0,
3754,3124,4194,0,
3755,3125,4195,0,
3757,2193,4196,0,
3318,1151,4197,0,
3756,2745,4198,0,
3760,3132,4199,0,
3758,2199,4200,0,
3735,1192,4201,0,
3762,2206,4202,0,
3764,3141,4203,0,
3774,1160,4204,0,
3775,2807,4205,0,
3768,962,4206,0,
3771,3150,4207,0,
3769,3770,4208,0,
3766,946,4209,0,
3773,3069,4210,0,
3136,3768,4211,0,
3777,1001,4212,0,
3780,3161,4213,0,
3779,0,4214,2,
3785,885,4215,0,
3783,3168,4216,0,
3323,1295,4217,0,
3634,3062,4218,0,
3661,2810,4219,0,
3527,3281,4220,0,
3788,843,4221,0,
3789,23,4222,1,
3789,0,4223,2,
3790,930,4224,0,
3787,0,4225,2,
3791,2249,4226,0,
3795,3179,4227,0,
3787,3174,4228,0,
360,3787,4229,1,
3799,2261,4230,0,
3184,3800,4231,0,
3787,792,4232,0,
3787,787,4233,1,
3787,1118,4234,0,
3807,851,4235,0,
3806,3194,4236,0,
3811,2288,4237,0,
3813,2291,4238,0,
3815,458,4239,1,
3815,360,4240,0,
3817,0,4241,2,
3573,1378,4242,0,
3774,1409,4243,0,
3581,3052,4244,0,
3818,2173,4245,1,
3574,1015,4246,0,
3818,1116,4247,0,
3819,2301,4248,0,
3787,39,4249,0,
3529,953,4250,0,
3823,459,4251,1,
3825,853,4252,0,
459,3823,4253,0,
3829,0,4254,2,
3830,1115,4255,1,
1300,3334,4256,0,
3830,0,4257,2,
3831,3223,4258,0,
3832,862,4259,0,
3834,1548,4260,0,
3149,3305,4261,0,
3500,1344,4262,0,
2348,3843,4263,1,
1134,3767,4264,0,
3842,0,4265,2,
3239,3846,4266,0,
3849,0,4267,2,
3850,3851,4268,0,
3852,3853,4269,0,
3854,0,4270,2,
3787,3116,4271,0,
3858,2470,4272,0,
3860,3094,4273,0,
3772,0,4274,2,
3859,1033,4275,0,
39,3787,4276,1,
4276,1116,4277,0,
39,4277,4278,1,
3864,2371,4279,0,
3298,2451,4280,0,
3867,3868,4281,0,
3869,0,4282,2,
3879,2457,4283,0,
3278,3880,4284,0,
3877,1308,4285,0,
3878,3277,4286,0,
3876,1302,4287,0,
3875,2452,4288,0,
3293,3881,4289,0,
3887,3283,4290,0,
3884,3885,4291,0,
3886,3301,4292,0,
3304,3882,4293,0,
3883,3297,4294,0,
3908,3319,4295,0,
3911,2519,4296,0,
3904,3905,4297,0,
3890,3909,4298,0,
3899,3891,4299,0,
3892,3910,4300,0,
3901,2518,4301,0,
3329,3898,4302,0,
3328,3900,4303,0,
3897,2516,4304,0,
1362,3896,4305,0,
3906,3907,4306,0,
3320,3893,4307,0,
2510,3894,4308,0,
3323,3895,4309,0,
3913,3912,4310,0,
3914,3342,4311,0,
3903,3902,4312,0,
3918,1380,4313,0,
3346,3924,4314,0,
3917,3921,4315,0,
3915,3916,4316,0,
3349,3926,4317,0,
3928,958,4318,0,
3359,3931,4319,0,
3932,2567,4320,0,
3935,0,4321,2,
3930,2553,4322,0,
3936,1189,4323,0,
3934,1435,4324,0,
3929,3358,4325,0,
2563,3933,4326,0,
3373,3942,4327,0,
3943,235,4328,1,
321,3945,4329,0,
3940,3372,4330,0,
3941,0,4331,2,
3937,0,4332,2,
3937,3380,4333,1,
3938,0,4334,2,
3939,2576,4335,0,
3950,2596,4336,1,
3946,0,4337,2,
3943,0,4338,2,
3952,3951,4339,0,
3950,0,4340,2,
2589,3948,4341,0,
3957,0,4342,2,
3958,0,4343,2,
3963,0,4344,2,
232,3956,4345,0,
3962,0,4346,2,
3960,0,4347,2,
3953,3394,4348,0,
322,3959,4349,0,
3411,3972,4350,0,
2620,3973,4351,0,
3974,3414,4352,1,
3412,3976,4353,0,
3967,0,4354,2,
3966,0,4355,2,
3977,0,4356,2,
3968,0,4357,2,
3417,3975,4358,0,
3416,3969,4359,0,
3970,2616,4360,0,
3418,3971,4361,0,
3965,3410,4362,0,
3974,0,4363,2,
3980,0,4364,2,
3979,1300,4365,0,
3981,0,4366,2,
3988,3984,4367,0,
3427,3985,4368,1,
3987,2631,4369,0,
3991,2633,4370,0,
3388,3938,4371,1,
3985,0,4372,2,
3995,0,4373,2,
3994,3437,4374,0,
3457,3999,4375,0,
3998,3443,4376,0,
2675,4000,4377,0,
4003,1587,4378,0,
4008,2689,4379,0,
4001,0,4380,2,
4005,4004,4381,0,
4002,4009,4382,0,
4007,1435,4383,0,
4006,1133,4384,0,
1559,4013,4385,0,
4011,0,4386,2,
4014,990,4387,0,
4016,2726,4388,0,
4018,3477,4389,0,
4021,2733,4390,0,
4020,1566,4391,0,
4015,2719,4392,0,
4024,2740,4393,0,
4023,3487,4394,0,
4025,2741,4395,0,
4027,0,4396,2,
4028,3486,4397,0,
4030,2742,4398,0,
4022,2737,4399,0,
3471,4011,4400,1,
4037,844,4401,0,
2761,4026,4402,0,
4034,0,4403,2,
4035,2749,4404,0,
4036,2755,4405,0,
4033,3497,4406,0,
4044,1435,4407,0,
4041,2775,4408,0,
4042,1148,4409,0,
4038,2768,4410,0,
1435,3882,4411,0,
3334,4046,4412,0,
2427,3915,4413,0,
4045,2782,4414,0,
2668,4051,4415,0,
4054,2800,4416,0,
4048,2791,4417,0,
4053,2422,4418,0,
4050,3529,4419,0,
4057,3530,4420,0,
4062,0,4421,2,
4059,4060,4422,0,
4063,2831,4423,0,
4066,1786,4424,0,
4068,2840,4425,0,
4071,1003,4426,0,
4070,2849,4427,0,
4072,2860,4428,0,
4076,3569,4429,0,
3487,4002,4430,0,
4078,798,4431,0,
4080,3575,4432,0,
4074,3568,4433,0,
4075,1826,4434,0,
4081,3579,4435,0,
4083,2896,4436,0,
4091,2903,4437,0,
4089,1887,4438,0,
4093,1154,4439,0,
4092,3589,4440,0,
4087,1886,4441,0,
4094,2936,4442,0,
4096,1914,4443,0,
4102,0,4444,2,
4100,2938,4445,0,
1260,4099,4446,0,
456,4102,4447,1,
4098,3612,4448,0,
4095,2920,4449,0,
4107,3621,4450,0,
4108,3623,4451,0,
4112,2958,4452,0,
4103,899,4453,0,
4111,2955,4454,0,
4105,2950,4455,0,
4019,1905,4456,0,
4114,3637,4457,0,
4113,4116,4458,0,
4115,3639,4459,0,
4009,3932,4460,0,
4117,2978,4461,0,
4119,2980,4462,0,
1557,4046,4463,0,
4120,3648,4464,0,
4123,1992,4465,0,
3992,3936,4466,0,
4125,973,4467,0,
4127,2824,4468,0,
4131,3006,4469,0,
2551,3891,4470,0,
3627,4097,4471,0,
4134,886,4472,0,
4135,2026,4473,0,
4136,2038,4474,0,
4090,2880,4475,0,
3979,1302,4476,0,
4139,1447,4477,0,
4140,3026,4478,0,
4142,3031,4479,0,
4144,2445,4480,0,
4139,3034,4481,0,
4147,3039,4482,0,
4146,1084,4483,0,
4148,3040,4484,0,
4149,2736,4485,0,
4039,3296,4486,0,
3562,4153,4487,0,
4157,2098,4488,0,
3708,4153,4489,0,
4158,3067,4490,0,
4160,3070,4491,0,
4159,3071,4492,0,
3074,4162,4493,0,
4161,3073,4494,0,
4166,3077,4495,0,
4168,2789,4496,0,
4170,3081,4497,0,
4175,3090,4498,0,
4173,4172,4499,0,
4174,2144,4500,0,
4053,2766,4501,0,
4176,3047,4502,0,
4177,3093,4503,0,
4180,2157,4504,0,
4182,1570,4505,0,
4181,3099,4506,0,
4183,935,4507,0,
4185,3111,4508,0,
4184,3110,4509,0,
3033,4149,4510,0,
4188,2177,4511,0,
4192,4193,4512,0,
3881,3663,4513,0,
1177,4031,4514,0,
4191,4190,4515,0,
4197,3759,4516,0,
4196,3129,4517,0,
4198,2203,4518,0,
4200,3135,4519,0,
4201,839,4520,0,
1260,4202,4521,0,
4203,3147,4522,0,
4207,3159,4523,0,
4211,2242,4524,0,
4208,3158,4525,0,
4210,4209,4526,0,
4118,4212,4527,0,
4215,1617,4528,0,
4225,3174,4529,1,
4224,3173,4530,0,
3171,4219,4531,0,
4223,39,4532,0,
4226,3175,4533,0,
4216,4202,4534,0,
4227,3798,4535,0,
4228,0,4536,2,
3907,3337,4537,0,
4229,0,4538,2,
4230,3185,4539,0,
4231,3801,4540,0,
3906,1028,4541,0,
4225,787,4542,0,
4232,0,4543,2,
4236,3808,4544,0,
4234,0,4545,2,
4233,95,4546,1,
4239,0,4547,2,
4240,0,4548,2,
4225,23,4549,1,
4245,0,4550,2,
4244,4243,4551,0,
4246,2305,4552,0,
4242,2299,4553,0,
4248,3207,4554,0,
4247,0,4555,2,
4233,3142,4556,1,
4249,0,4557,2,
4233,2207,4558,0,
1118,4225,4559,0,
4212,3213,4560,0,
4044,3319,4561,0,
4250,2313,4562,0,
2684,3944,4563,0,
4252,2321,4564,0,
4255,3787,4565,1,
4254,4190,4566,0,
4253,0,4567,2,
4255,0,4568,2,
3222,4037,4569,0,
4257,1115,4570,0,
4256,2503,4571,0,
4261,3841,4572,0,
4262,820,4573,0,
4263,4265,4574,1,
3842,4229,4575,1,
4263,3842,4576,0,
4266,3242,4577,0,
4267,2348,4578,0,
4225,2173,4579,1,
458,4225,4580,0,
4271,0,4581,2,
4225,1115,4582,1,
4272,3342,4583,0,
4273,4275,4584,0,
4168,1256,4585,0,
4279,3865,4586,0,
4280,3319,4587,0,
4225,1115,4588,0,
3890,3892,4589,0,
4282,2376,4590,0,
4225,4274,4591,1,
3772,4225,4592,0,
4225,3142,4593,1,
3142,4225,4594,0,
4286,4283,4595,0,
4285,4284,4596,0,
4287,4288,4597,0,
4294,2521,4598,0,
4293,2439,4599,0,
4289,3888,4600,0,
4290,3889,4601,0,
4292,4291,4602,0,
3919,4305,4603,0,
4304,3344,4604,0,
4308,3920,4605,0,
4300,4295,4606,0,
4303,4301,4607,0,
4299,4298,4608,0,
3922,4306,4609,0,
4310,4296,4610,0,
4309,3925,4611,0,
4312,2522,4612,0,
4297,4302,4613,0,
3923,4307,4614,0,
3927,4314,4615,0,
4317,3368,4616,0,
4318,1432,4617,0,
4323,4322,4618,0,
3375,4320,4619,0,
2573,4321,4620,0,
4325,4319,4621,0,
4326,0,4622,2,
4324,3944,4623,0,
4327,0,4624,2,
4328,0,4625,2,
3388,4334,4626,0,
4329,0,4627,2,
4333,4331,4628,0,
4332,3947,4629,0,
4330,4335,4630,0,
4341,3954,4631,0,
235,4338,4632,0,
4340,3398,4633,0,
4349,0,4634,2,
4345,0,4635,2,
4348,0,4636,2,
427,4347,4637,0,
4333,3941,4638,1,
3415,4343,4639,0,
4346,4344,4640,0,
4350,0,4641,2,
3980,4361,4642,1,
4360,1179,4643,0,
4359,0,4644,2,
4336,4327,4645,1,
4353,0,4646,2,
4352,4350,4647,1,
4351,0,4648,2,
4361,0,4649,2,
4363,3986,4650,0,
2624,4359,4651,1,
4358,0,4652,2,
4368,0,4653,2,
4369,3431,4654,0,
4367,3430,4655,0,
4283,3275,4656,0,
4371,0,4657,2,
3427,4372,4658,0,
3440,4373,4659,0,
2683,4376,4660,0,
4377,4010,4661,0,
4375,2684,4662,0,
4379,3463,4663,0,
4382,4381,4664,0,
4378,2702,4665,0,
4383,2713,4666,0,
3471,4386,4667,0,
4385,0,4668,2,
4319,3313,4669,0,
4389,3345,4670,0,
4390,3492,4671,0,
4388,1227,4672,0,
4394,4032,4673,0,
4393,1703,4674,0,
4398,1619,4675,0,
4395,3381,4676,0,
4400,0,4677,2,
1154,4406,4678,0,
4401,816,4679,0,
2787,4403,4680,0,
4405,1258,4681,0,
4411,4412,4682,0,
4407,1703,4683,0,
4410,3519,4684,0,
4408,4047,4685,0,
4418,2810,4686,0,
4415,2694,4687,0,
4379,3536,4688,0,
4416,3266,4689,0,
1779,4421,4690,0,
4422,3546,4691,0,
4424,2852,4692,0,
1227,4425,4693,0,
4426,1827,4694,0,
4431,2886,4695,0,
4433,2880,4696,0,
4432,4044,4697,0,
4430,2895,4698,0,
4429,4434,4699,0,
4388,4085,4700,0,
4436,3602,4701,0,
4435,3598,4702,0,
4441,2935,4703,0,
4437,4051,4704,0,
4449,3625,4705,0,
1947,4447,4706,0,
784,4444,4707,0,
4443,2941,4708,0,
4446,1447,4709,0,
4285,2405,4710,0,
4451,2960,4711,0,
2962,4455,4712,0,
4453,2966,4713,0,
4456,3599,4714,0,
4442,3577,4715,0,
4118,4393,4716,0,
4285,1978,4717,0,
4463,3536,4718,0,
4466,2937,4719,0,
4465,3655,4720,0,
4468,4130,4721,0,
4395,4433,4722,0,
4406,1323,4723,0,
4450,2868,4724,0,
4475,4137,4725,0,
4474,3023,4726,0,
4476,1394,4727,0,
4481,3686,4728,0,
3687,4480,4729,0,
4452,1324,4730,0,
4483,2069,4731,0,
4482,4099,4732,0,
4485,3690,4733,0,
4486,3698,4734,0,
4482,2395,4735,0,
4429,1227,4736,0,
3701,4459,4737,0,
4487,1336,4738,0,
4488,3063,4739,0,
4489,2117,4740,0,
4164,4492,4741,0,
4493,4165,4742,0,
4144,4491,4743,0,
4496,1671,4744,0,
4503,3730,4745,0,
4502,4179,4746,0,
4398,1192,4747,0,
4506,3738,4748,0,
4505,3737,4749,0,
4509,3749,4750,0,
4508,3747,4751,0,
4511,3123,4752,0,
1877,4425,4753,0,
4515,2195,4754,0,
4513,4514,4755,0,
4518,3763,4756,0,
4504,3727,4757,0,
4520,3144,4758,0,
4521,1258,4759,0,
4524,3166,4760,0,
4523,3781,4761,0,
4525,1704,4762,0,
4526,3786,4763,0,
4527,2718,4764,0,
4528,3172,4765,0,
4529,95,4766,1,
4532,0,4767,2,
4529,0,4768,2,
4535,2395,4769,0,
4538,3787,4770,1,
4497,1370,4771,0,
4389,2683,4772,0,
4541,799,4773,0,
4500,3473,4774,0,
4542,0,4775,2,
4546,1122,4776,1,
4546,0,4777,2,
4544,3676,4778,0,
4241,4548,4779,0,
4549,95,4780,1,
4552,3208,4781,0,
4553,3209,4782,0,
2306,4555,4783,0,
4549,95,4784,0,
4556,1127,4785,1,
4556,0,4786,2,
3803,4512,4787,0,
4558,0,4788,2,
4559,0,4789,2,
4560,3824,4790,0,
4563,3827,4791,0,
4564,3218,4792,0,
4362,2401,4793,0,
4335,1295,4794,0,
4360,2515,4795,0,
4565,4566,4796,1,
4565,0,4797,2,
3787,4568,4798,0,
3835,4569,4799,0,
4570,0,4800,2,
4540,3626,4801,0,
3229,4571,4802,0,
4405,1227,4803,0,
4574,0,4804,2,
4574,3142,4805,1,
4576,0,4806,2,
4575,3243,4807,1,
4265,4538,4808,0,
4578,0,4809,2,
4549,0,4810,2,
4575,3855,4811,0,
2195,4515,4812,1,
4582,3251,4813,1,
4580,0,4814,2,
4581,4190,4815,0,
4584,3862,4816,0,
4585,1392,4817,0,
4582,2365,4818,0,
3866,4588,4819,1,
2374,4437,4820,0,
3257,4427,4821,0,
4587,3286,4822,0,
4588,3866,4823,0,
3870,4590,4824,1,
4590,0,4825,2,
4591,0,4826,2,
4592,0,4827,2,
4593,3174,4828,1,
3174,4593,4829,0,
4594,0,4830,2,
4529,3787,4831,1,
4597,3338,4832,0,
4596,4595,4833,0,
4601,4600,4834,0,
4599,4598,4835,0,
4316,4610,4836,0,
4607,4608,4837,0,
4606,4284,4838,0,
4614,4611,4839,0,
4605,4313,4840,0,
4604,4603,4841,0,
4315,4609,4842,0,
4616,4617,4843,0,
2598,4622,4844,0,
4620,0,4845,2,
4618,4621,4846,0,
4619,3949,4847,0,
4337,4627,4848,0,
4629,0,4849,2,
3955,4625,4850,0,
4626,0,4851,2,
4628,0,4852,2,
4339,4630,4853,0,
4336,4624,4854,0,
4633,0,4855,2,
4631,3978,4856,0,
4637,4353,4857,1,
3955,4625,4858,1,
4632,0,4859,2,
4639,3981,4860,0,
4637,0,4861,2,
4355,4635,4862,0,
4356,4636,4863,0,
4354,4634,4864,0,
4638,0,4865,2,
4639,0,4866,2,
4640,0,4867,2,
4352,4641,4868,0,
3425,4644,4869,0,
4647,0,4870,2,
4364,4649,4871,0,
4645,0,4872,2,
3990,4648,4873,0,
4640,4638,4874,0,
4650,0,4875,2,
4651,0,4876,2,
4655,3925,4877,0,
4654,3992,4878,0,
4658,0,4879,2,
4001,4659,4880,1,
4659,0,4881,2,
4661,3470,4882,0,
4660,3462,4883,0,
4662,4384,4884,0,
4663,2722,4885,0,
4665,4019,4886,0,
4667,0,4887,2,
4392,4604,4888,0,
4399,4671,4889,0,
4672,4670,4890,0,
4669,4031,4891,0,
4674,4039,4892,0,
2776,4676,4893,0,
4402,4666,4894,0,
4673,3508,4895,0,
4675,3462,4896,0,
4392,4655,4897,0,
4679,2801,4898,0,
4678,4413,4899,0,
4680,0,4900,2,
4682,4061,4901,0,
4685,4607,4902,0,
4419,4683,4903,0,
4688,3549,4904,0,
3532,4680,4905,1,
4686,1770,4906,0,
4687,3539,4907,0,
4689,3377,4908,0,
1794,4690,4909,1,
4691,4423,4910,0,
4616,4612,4911,0,
4690,0,4912,2,
4692,2871,4913,0,
4693,1786,4914,0,
4694,3588,4915,0,
4088,4699,4916,0,
4695,2558,4917,0,
4698,1900,4918,0,
4696,4086,4919,0,
4697,3593,4920,0,
4702,1374,4921,0,
4703,3619,4922,0,
4704,3620,4923,0,
4705,2558,4924,0,
4708,3626,4925,0,
4707,0,4926,2,
4710,3886,4927,0,
4712,2973,4928,0,
4713,3642,4929,0,
4715,3649,4930,0,
4714,4121,4931,0,
4717,2917,4932,0,
4719,4467,4933,0,
4721,3662,4934,0,
4720,1619,4935,0,
4471,4723,4936,0,
4726,4137,4937,0,
4725,4724,4938,0,
4727,3677,4939,0,
4684,3560,4940,0,
4729,4728,4941,0,
4731,3688,4942,0,
3692,4732,4943,0,
4730,4150,4944,0,
4735,3702,4945,0,
4736,3057,4946,0,
4060,4726,4947,0,
4740,3716,4948,0,
4741,4167,4949,0,
4654,1435,4950,0,
4603,3301,4951,0,
4744,2132,4952,0,
4665,2732,4953,0,
4746,3734,4954,0,
4748,4420,4955,0,
4455,4705,4956,0,
4753,3127,4957,0,
4752,4194,4958,0,
4754,0,4959,2,
4756,3491,4960,0,
4757,3776,4961,0,
4758,3778,4962,0,
4759,4206,4963,0,
4762,3604,4964,0,
4765,958,4965,0,
4766,3794,4966,1,
4701,3034,4967,0,
4766,0,4968,2,
4768,95,4969,0,
4630,2565,4970,0,
4770,0,4971,2,
4702,933,4972,0,
4671,3326,4973,0,
4773,2275,4974,0,
4775,4545,4975,0,
4777,2289,4976,0,
4761,3652,4977,0,
4763,1374,4978,0,
4752,4656,4979,0,
4617,1154,4980,0,
4748,4434,4981,0,
4779,0,4982,2,
4245,4779,4983,1,
4780,1118,4984,1,
4783,0,4985,2,
4780,787,4986,0,
4784,0,4987,2,
4786,791,4988,0,
3514,4695,4989,0,
4789,4788,4990,0,
4794,4795,4991,0,
4796,0,4992,2,
4566,4797,4993,0,
4799,3836,4994,0,
4798,0,4995,2,
4802,3839,4996,0,
3838,4800,4997,0,
4803,4264,4998,0,
4805,0,4999,2,
3142,4804,5000,0,
4807,4578,5001,1,
4807,0,5002,2,
4579,4810,5003,1,
3514,4756,5004,0,
4808,0,5005,2,
4811,0,5006,2,
4812,0,5007,2,
4813,4815,5008,1,
4817,3255,5009,0,
4813,0,5010,2,
4816,3293,5011,0,
4818,0,5012,2,
4822,4589,5013,0,
3258,4820,5014,0,
4823,0,5015,2,
4824,0,5016,2,
3870,4825,5017,0,
4827,4214,5018,0,
4829,0,5019,2,
4832,4311,5020,0,
4833,4602,5021,0,
4612,4834,5022,0,
4613,4835,5023,0,
4840,4841,5024,0,
4615,4839,5025,0,
4836,4842,5026,0,
4837,4838,5027,0,
4843,4623,5028,0,
4847,3961,5029,0,
3964,4845,5030,0,
4844,0,5031,2,
4342,4851,5032,0,
4854,0,5033,2,
2617,4848,5034,1,
4849,4852,5035,0,
4853,879,5036,0,
4850,0,5037,2,
4844,3983,5038,0,
4848,0,5039,2,
4856,4362,5040,0,
3982,4857,5041,1,
4858,4358,5042,1,
3982,4857,5043,0,
4647,4864,5044,1,
4864,0,5045,2,
4860,0,5046,2,
4366,4866,5047,0,
4862,0,5048,2,
4645,4862,5049,1,
4865,4867,5050,0,
4861,4646,5051,0,
4863,0,5052,2,
4869,0,5053,2,
4871,0,5054,2,
4858,4652,5055,0,
4868,0,5056,2,
4873,0,5057,2,
3341,4834,5058,0,
4877,4656,5059,0,
4878,2646,5060,0,
4380,4881,5061,0,
4884,4666,5062,0,
4664,4882,5063,0,
4883,4017,5064,0,
4885,4387,5065,0,
4391,4886,5066,0,
4396,4887,5067,0,
4888,3504,5068,0,
4891,4043,5069,0,
4890,4040,5070,0,
4896,4055,5071,0,
4897,4681,5072,0,
4894,4884,5073,0,
4895,3525,5074,0,
4893,4409,5075,0,
4892,4052,5076,0,
4899,3531,5077,0,
3532,4900,5078,0,
4903,4064,5079,0,
4901,3538,5080,0,
4906,3552,5081,0,
4908,3557,5082,0,
4904,4069,5083,0,
4907,3554,5084,0,
4910,1804,5085,0,
4909,0,5086,2,
1794,4912,5087,0,
4914,4084,5088,0,
4913,3583,5089,0,
4915,3450,5090,0,
4905,0,5091,2,
4918,3608,5092,0,
4916,4440,5093,0,
4919,4101,5094,0,
4917,3582,5095,0,
4920,2934,5096,0,
4454,4922,5097,0,
4923,3630,5098,0,
4926,3636,5099,0,
4925,2971,5100,0,
4927,3271,5101,0,
4928,3647,5102,0,
4882,902,5103,0,
4929,4459,5104,0,
4931,2994,5105,0,
4933,3657,5106,0,
3665,4934,5107,0,
4935,4470,5108,0,
4936,3668,5109,0,
4937,4141,5110,0,
4938,4478,5111,0,
1704,4922,5112,0,
4940,3685,5113,0,
4941,3693,5114,0,
4944,4151,5115,0,
4943,4152,5116,0,
4942,4839,5117,0,
4946,4738,5118,0,
4945,4156,5119,0,
4949,4495,5120,0,
4952,3089,5121,0,
4747,4840,5122,0,
4504,4954,5123,0,
4187,4955,5124,0,
4957,2196,5125,0,
3134,4959,5126,0,
4910,2990,5127,0,
4960,3149,5128,0,
3889,4835,5129,0,
4961,4205,5130,0,
4963,3782,5131,0,
4964,4221,5132,0,
4965,859,5133,0,
4966,0,5134,2,
4967,3796,5135,0,
3794,4968,5136,0,
4969,0,5137,2,
4970,3951,5138,0,
4972,2264,5139,0,
4962,1557,5140,0,
4973,3805,5141,0,
4974,3198,5142,0,
4975,95,5143,0,
4976,0,5144,2,
4856,1302,5145,0,
4535,4842,5146,0,
4979,3133,5147,0,
4550,4982,5148,0,
4984,3210,5149,1,
4984,0,5150,2,
4948,1370,5151,0,
4235,4934,5152,0,
4987,4557,5153,0,
4986,0,5154,2,
4989,4561,5155,0,
4988,0,5156,2,
4251,4990,5157,1,
4990,0,5158,2,
4942,4093,5159,0,
4993,0,5160,2,
4997,3844,5161,1,
4997,0,5162,2,
4954,2668,5163,0,
4998,4573,5164,0,
5000,0,5165,2,
5002,4809,5166,0,
4270,5005,5167,0,
5003,4580,5168,1,
5004,4834,5169,0,
5007,2362,5170,0,
5003,4814,5171,0,
5008,0,5172,2,
4815,5010,5173,0,
2373,5012,5174,0,
5011,2640,5175,0,
5014,5013,5176,0,
5017,0,5177,2,
4828,5018,5178,1,
5018,0,5179,2,
4830,5019,5180,0,
5020,5021,5181,0,
5022,5023,5182,0,
5027,5026,5183,0,
5025,5024,5184,0,
5027,0,5185,2,
5028,4846,5186,0,
3413,5031,5187,0,
5030,0,5188,2,
5036,1206,5189,0,
4859,5037,5190,0,
5034,0,5191,2,
5035,0,5192,2,
4855,5033,5193,0,
5032,0,5194,2,
5038,0,5195,2,
2617,5039,5196,0,
5026,0,5197,2,
4365,5040,5198,0,
5042,0,5199,2,
5034,3421,5200,1,
4863,5042,5201,1,
5050,0,5202,2,
5047,0,5203,2,
4870,5045,5204,0,
4872,5048,5205,0,
5051,0,5206,2,
5041,0,5207,2,
5043,0,5208,2,
5057,4653,5209,1,
3993,5053,5210,0,
4875,5056,5211,0,
5055,0,5212,2,
5059,5058,5213,0,
5057,4653,5214,0,
5060,3996,5215,0,
4642,5032,5216,1,
5061,0,5217,2,
5062,4026,5218,0,
5064,4029,5219,0,
5065,3499,5220,0,
5066,4397,5221,0,
5067,0,5222,2,
5068,4404,5223,0,
3515,5067,5224,1,
5070,3526,5225,0,
5069,3520,5226,0,
5076,3537,5227,0,
5075,3534,5228,0,
5073,1760,5229,0,
5072,4058,5230,0,
5074,5029,5231,0,
5071,4898,5232,0,
5077,3543,5233,0,
5078,0,5234,2,
5079,4065,5235,0,
5080,933,5236,0,
5083,3563,5237,0,
3560,5081,5238,0,
5082,4073,5239,0,
3293,5084,5240,0,
5081,4427,5241,0,
5085,2865,5242,0,
3463,5084,5243,0,
5088,3596,5244,0,
4090,5089,5245,0,
5087,0,5246,2,
4439,5090,5247,0,
5094,4445,5248,0,
5093,3622,5249,0,
5092,3624,5250,0,
5096,3618,5251,0,
5095,4110,5252,0,
5098,3640,5253,0,
5102,3650,5254,0,
5103,960,5255,0,
5105,4020,5256,0,
5106,3660,5257,0,
5089,4685,5258,0,
5108,4472,5259,0,
5109,3672,5260,0,
5110,4143,5261,0,
5111,1260,5262,0,
5112,1300,5263,0,
3696,5114,5264,0,
5116,4154,5265,0,
5115,3699,5266,0,
3624,5020,5267,0,
5119,3705,5268,0,
5118,3706,5269,0,
5120,4399,5270,0,
5020,1256,5271,0,
5121,4500,5272,0,
5124,4189,5273,0,
5125,3761,5274,0,
5106,4199,5275,0,
5126,0,5276,2,
5127,1880,5277,0,
5084,3767,5278,0,
5128,4204,5279,0,
5129,3162,5280,0,
5130,4213,5281,0,
4216,5131,5282,0,
5132,3792,5283,0,
3181,5133,5284,0,
5135,3183,5285,0,
5136,0,5286,2,
5036,1324,5287,0,
4536,5137,5288,0,
5138,3379,5289,0,
5139,3187,5290,0,
3999,5028,5291,0,
5140,1488,5292,0,
5114,4416,5293,0,
5143,0,5294,2,
5111,1374,5295,0,
4977,5145,5296,0,
4978,5146,5297,0,
5148,0,5298,2,
5149,4783,5299,1,
5151,3660,5300,0,
5150,3820,5301,0,
5149,4985,5302,0,
5152,3821,5303,0,
4785,5153,5304,1,
5153,0,5305,2,
5155,4562,5306,0,
5092,4544,5307,0,
5157,0,5308,2,
4251,5158,5309,0,
5080,1557,5310,0,
5120,3447,5311,0,
4995,5160,5312,0,
5161,0,5313,2,
3844,5162,5314,0,
4085,5131,5315,0,
5111,4376,5316,0,
5164,3848,5317,0,
5121,3542,5318,0,
4806,5165,5319,0,
5166,0,5320,2,
5168,5167,5321,1,
5168,0,5322,2,
5167,0,5323,2,
5171,0,5324,2,
5170,0,5325,2,
4278,5172,5326,1,
4278,5172,5327,0,
5173,0,5328,2,
4819,5174,5329,1,
4821,5175,5330,0,
5174,0,5331,2,
3873,5177,5332,0,
5178,0,5333,2,
4828,5179,5334,0,
4831,5180,5335,1,
5180,0,5336,2,
5181,0,5337,2,
5184,0,5338,2,
5183,0,5339,2,
5182,0,5340,2,
5027,5182,5341,1,
5186,5029,5342,0,
4357,5188,5343,0,
5187,0,5344,2,
5184,5026,5345,1,
4642,5194,5346,0,
5041,5192,5347,0,
5191,3989,5348,0,
760,5185,5349,0,
4643,5189,5350,0,
5190,0,5351,2,
5193,0,5352,2,
1090,5197,5353,0,
5196,0,5354,2,
763,5197,5355,0,
2634,5197,5356,0,
756,5185,5357,0,
760,5197,5358,0,
5199,5052,5359,0,
5195,5046,5360,0,
5206,5208,5361,0,
5197,2637,5362,0,
5203,5202,5363,0,
5204,0,5364,2,
1091,5185,5365,0,
1087,5197,5366,0,
273,5185,5367,0,
5200,4876,5368,1,
761,5185,5369,0,
5201,0,5370,2,
5205,0,5371,2,
5035,5207,5372,0,
466,5185,5373,0,
5211,0,5374,2,
5044,5193,5375,1,
5210,0,5376,2,
4371,5210,5377,1,
5049,5190,5378,1,
763,5185,5379,0,
5200,4651,5380,0,
2650,5197,5381,0,
3997,5197,5382,0,
466,5197,5383,0,
1090,5185,5384,0,
5215,3438,5385,0,
1087,5185,5386,0,
1095,5185,5387,0,
5214,0,5388,2,
5213,4374,5389,0,
1102,5197,5390,0,
5216,0,5391,2,
769,5185,5392,0,
1095,5197,5393,0,
1561,5185,5394,0,
1656,5197,5395,0,
4668,5217,5396,0,
5219,5218,5397,0,
5221,3517,5398,0,
5220,839,5399,0,
1102,5185,5400,0,
5223,4414,5401,0,
4056,5222,5402,0,
5226,4684,5403,0,
5228,5229,5404,0,
5230,3545,5405,0,
4420,5232,5406,0,
4905,5234,5407,0,
5236,986,5408,0,
119,5197,5409,0,
5235,2856,5410,0,
1656,5185,5411,0,
4911,5240,5412,0,
5227,4428,5413,0,
5239,1435,5414,0,
5238,5237,5415,0,
5242,1856,5416,0,
5241,3585,5417,0,
5245,2931,5418,0,
4097,5244,5419,0,
5247,4448,5420,0,
5248,4839,5421,0,
5252,3633,5422,0,
5226,4452,5423,0,
5251,4450,5424,0,
5249,5227,5425,0,
5250,3631,5426,0,
119,5185,5427,0,
5254,4428,5428,0,
5255,1994,5429,0,
5257,4722,5430,0,
5258,5227,5431,0,
5259,3674,5432,0,
4477,5260,5433,0,
4479,5219,5434,0,
5261,3682,5435,0,
5264,5117,5436,0,
5266,4009,5437,0,
5265,804,5438,0,
5267,3058,5439,0,
5251,3924,5440,0,
5268,4066,5441,0,
5269,3610,5442,0,
5268,5028,5443,0,
3585,5220,5444,0,
5270,2552,5445,0,
4953,5254,5446,0,
5271,4501,5447,0,
5235,1543,5448,0,
4956,5239,5449,0,
5273,3753,5450,0,
4750,5260,5451,0,
4046,5244,5452,0,
1215,5274,5453,0,
3772,5276,5454,0,
5277,3157,5455,0,
5232,5274,5456,0,
5279,3784,5457,0,
3106,5269,5458,0,
5281,4763,5459,0,
5282,1978,5460,0,
4702,5274,5461,0,
4534,5274,5462,0,
5284,3797,5463,0,
5281,1704,5464,0,
2738,5285,5465,0,
4537,5287,5466,0,
5288,0,5467,2,
4770,5288,5468,1,
4765,5274,5469,0,
5289,4540,5470,0,
4454,5249,5471,0,
5283,1152,5472,0,
5290,1174,5473,0,
5266,4330,5474,0,
5292,4772,5475,0,
5237,4745,5476,0,
5293,4774,5477,0,
5229,3286,5478,0,
5294,4775,5479,0,
4432,5265,5480,0,
4980,5295,5481,0,
5297,4551,5482,0,
5299,0,5483,2,
5302,0,5484,2,
5301,0,5485,2,
5304,0,5486,2,
4785,5305,5487,0,
5306,3826,5488,0,
5253,4915,5489,0,
5309,0,5490,2,
5312,0,5491,2,
5161,5312,5492,1,
5314,0,5493,2,
5316,5163,5494,0,
5315,3587,5495,0,
5226,4750,5496,0,
5317,3551,5497,0,
5228,1370,5498,0,
5001,5319,5499,1,
5319,0,5500,2,
5317,2862,5501,0,
5006,5320,5502,0,
5322,5323,5503,0,
5276,4274,5504,1,
3863,5269,5505,0,
5327,0,5506,2,
5330,4281,5507,0,
5329,0,5508,2,
4819,5331,5509,0,
5290,4525,5510,0,
5332,0,5511,2,
4591,5332,5512,1,
5334,0,5513,2,
5335,0,5514,2,
4831,5336,5515,0,
5337,5182,5516,1,
5185,5340,5517,0,
5337,5340,5518,0,
5339,5338,5519,0,
5342,0,5520,2,
5026,5338,5521,0,
273,5337,5522,0,
1087,5338,5523,0,
761,5338,5524,0,
757,5345,5525,0,
756,5338,5526,0,
761,5340,5527,0,
5343,5344,5528,0,
762,5345,5529,0,
5346,0,5530,2,
5348,0,5531,2,
763,5338,5532,0,
5198,5350,5533,0,
5349,0,5534,2,
5049,5351,5535,0,
5044,5352,5536,0,
435,5337,5537,0,
273,5340,5538,0,
5347,0,5539,2,
1091,5340,5540,0,
5357,0,5541,2,
5355,0,5542,2,
5359,0,5543,2,
166,5356,5544,1,
5358,0,5545,2,
1091,5338,5546,0,
5353,0,5547,2,
435,5340,5548,0,
760,5338,5549,0,
5368,0,5550,2,
5372,0,5551,2,
5361,5370,5552,0,
1095,5338,5553,0,
769,5340,5554,0,
767,5345,5555,0,
769,5338,5556,0,
5365,0,5557,2,
141,5362,5558,1,
5366,0,5559,2,
5367,0,5560,2,
5369,0,5561,2,
5378,0,5562,2,
5361,0,5563,2,
5375,0,5564,2,
1090,5338,5565,0,
5373,0,5566,2,
4657,5376,5567,0,
5211,5368,5568,1,
756,5340,5569,0,
466,5340,5570,0,
763,5340,5571,0,
756,5337,5572,0,
760,5340,5573,0,
761,5337,5574,0,
249,5381,5575,1,
5383,0,5576,2,
259,5382,5577,1,
1561,5338,5578,0,
1551,5345,5579,0,
5379,0,5580,2,
769,5337,5581,0,
5380,0,5582,2,
763,5337,5583,0,
1090,5340,5584,0,
4879,5388,5585,0,
3454,5385,5586,0,
5384,0,5587,2,
5386,0,5588,2,
5387,0,5589,2,
5389,3456,5590,0,
5390,0,5591,2,
1091,5337,5592,0,
760,5337,5593,0,
1087,5340,5594,0,
466,5338,5595,0,
5393,0,5596,2,
5392,0,5597,2,
1102,5338,5598,0,
466,5337,5599,0,
1095,5340,5600,0,
5394,0,5601,2,
5395,0,5602,2,
5396,0,5603,2,
4400,5396,5604,1,
5397,4889,5605,0,
1656,5338,5606,0,
1561,5340,5607,0,
5399,886,5608,0,
5398,991,5609,0,
1090,5337,5610,0,
5225,5401,5611,0,
5400,0,5612,2,
1087,5337,5613,0,
5402,0,5614,2,
1095,5337,5615,0,
5403,5231,5616,0,
5404,5233,5617,0,
5406,4067,5618,0,
5407,0,5619,2,
1102,5340,5620,0,
1561,5337,5621,0,
5411,0,5622,2,
4079,5410,5623,0,
5408,3574,5624,0,
5415,4082,5625,0,
5413,2452,5626,0,
5414,1300,5627,0,
5417,4700,5628,0,
5416,2904,5629,0,
119,5338,5630,0,
1102,5337,5631,0,
1656,5340,5632,0,
5418,4104,5633,0,
5419,4109,5634,0,
5420,3628,5635,0,
4924,5425,5636,0,
5424,5423,5637,0,
5421,5097,5638,0,
1656,5337,5639,0,
4718,5428,5640,0,
5429,1610,5641,0,
4720,5385,5642,0,
119,5340,5643,0,
5408,1533,5644,0,
5431,5107,5645,0,
119,5337,5646,0,
5432,4310,5647,0,
5262,5434,5648,0,
5435,4708,5649,0,
5436,4734,5650,0,
4737,5437,5651,0,
5438,1041,5652,0,
4947,5440,5653,0,
5441,5442,5654,0,
5443,4948,5655,0,
4950,5444,5656,0,
5446,5272,5657,0,
4745,5401,5658,0,
3665,5398,5659,0,
5449,4510,5660,0,
5448,1305,5661,0,
5450,4512,5662,0,
5452,5451,5663,0,
5429,1346,5664,0,
5453,4099,5665,0,
5454,0,5666,2,
4962,5455,5667,0,
4761,5457,5668,0,
5458,4218,5669,0,
5459,4220,5670,0,
5460,2254,5671,0,
5465,873,5672,0,
5464,4769,5673,0,
4971,5467,5674,0,
4771,5471,5675,0,
5470,3802,5676,0,
3803,5435,5677,0,
5473,5472,5678,0,
5291,5474,5679,0,
5476,4492,5680,0,
4239,5479,5681,1,
5479,0,5682,2,
5480,4981,5683,0,
5481,5296,5684,0,
5482,4554,5685,0,
5485,5154,5686,0,
4199,5457,5687,0,
5401,4603,5688,0,
5487,0,5689,2,
5422,4194,5690,0,
5310,5489,5691,0,
5450,2765,5692,0,
4567,5490,5693,0,
5313,5491,5694,0,
3847,5493,5695,0,
5494,5495,5696,0,
5496,3888,5697,0,
5498,5260,5698,0,
5499,0,5699,2,
5001,5500,5700,0,
5501,2426,5701,0,
5321,5502,5702,1,
5502,0,5703,2,
5503,0,5704,2,
5504,0,5705,2,
4816,5432,5706,0,
5328,5506,5707,0,
5507,5176,5708,0,
5509,0,5709,2,
5455,5285,5710,0,
4826,5511,5711,0,
5515,0,5712,2,
5516,0,5713,2,
5518,0,5714,2,
5517,0,5715,2,
5519,5341,5716,0,
5519,5341,5717,1,
435,5520,5718,0,
5185,5521,5719,1,
5520,5181,5720,1,
5525,0,5721,2,
5526,0,5722,2,
5529,0,5723,2,
5524,0,5724,2,
5523,0,5725,2,
5527,0,5726,2,
5528,0,5727,2,
5522,0,5728,2,
5354,5531,5729,0,
5540,0,5730,2,
5532,0,5731,2,
5533,4370,5732,0,
5054,5530,5733,0,
5520,5337,5734,0,
5538,0,5735,2,
5537,0,5736,2,
5535,0,5737,2,
4874,5539,5738,0,
5536,0,5739,2,
5363,5539,5740,0,
5546,0,5741,2,
5212,5543,5742,0,
5544,0,5743,2,
5549,0,5744,2,
5548,0,5745,2,
141,5558,5746,0,
5552,0,5747,2,
5550,5374,5748,0,
5556,0,5749,2,
5554,0,5750,2,
5553,0,5751,2,
5555,0,5752,2,
5544,138,5753,1,
5567,0,5754,2,
5201,5563,5755,0,
5569,0,5756,2,
5565,0,5757,2,
5570,0,5758,2,
5581,0,5759,2,
756,5520,5760,0,
5575,0,5761,2,
5572,0,5762,2,
5579,0,5763,2,
5578,0,5764,2,
141,5558,5765,1,
5577,119,5766,1,
5571,0,5767,2,
5573,0,5768,2,
5568,0,5769,2,
5574,0,5770,2,
5575,135,5771,1,
5590,0,5772,2,
4880,5585,5773,1,
5584,0,5774,2,
273,5520,5775,0,
5583,0,5776,2,
5586,2680,5777,0,
5592,0,5778,2,
5577,0,5779,2,
5585,0,5780,2,
761,5520,5781,0,
5595,0,5782,2,
5594,0,5783,2,
5593,0,5784,2,
769,5520,5785,0,
5599,0,5786,2,
5600,0,5787,2,
5598,0,5788,2,
1091,5520,5789,0,
4677,5603,5790,0,
5605,4049,5791,0,
5609,880,5792,0,
763,5520,5793,0,
466,5520,5794,0,
5607,0,5795,2,
5608,1763,5796,0,
5606,0,5797,2,
760,5520,5798,0,
5610,0,5799,2,
5611,4902,5800,0,
5615,0,5801,2,
5613,0,5802,2,
5616,0,5803,2,
1087,5520,5804,0,
1090,5520,5805,0,
5617,0,5806,2,
5619,5086,5807,0,
5621,0,5808,2,
5620,0,5809,2,
5624,1860,5810,0,
5412,5623,5811,0,
5626,2916,5812,0,
5627,5243,5813,0,
1095,5520,5814,0,
5628,4438,5815,0,
1561,5520,5816,0,
5629,4701,5817,0,
5632,0,5818,2,
5631,0,5819,2,
5633,3629,5820,0,
5422,5635,5821,0,
5638,4457,5822,0,
5637,4458,5823,0,
5636,5100,5824,0,
1102,5520,5825,0,
5253,5635,5826,0,
5639,0,5827,2,
1656,5520,5828,0,
5642,5256,5829,0,
5641,3003,5830,0,
4133,5644,5831,0,
5645,4473,5832,0,
5433,5647,5833,0,
119,5520,5834,0,
5648,5113,5835,0,
5263,5649,5836,0,
5650,3704,5837,0,
5652,3053,5838,0,
5651,5439,5839,0,
5654,4163,5840,0,
5655,4743,5841,0,
5656,5445,5842,0,
5657,5447,5843,0,
5122,5658,5844,0,
5123,5659,5845,0,
5660,5661,5846,0,
5662,4958,5847,0,
5663,4755,5848,0,
5629,2560,5849,0,
5664,3765,5850,0,
5665,5278,5851,0,
5666,4214,5852,0,
5456,5667,5853,0,
4217,5668,5854,0,
5670,4531,5855,0,
5283,5671,5856,0,
5672,809,5857,0,
5671,5133,5858,0,
5673,5466,5859,0,
5674,0,5860,2,
5469,5672,5861,0,
5675,5676,5862,0,
5677,3192,5863,0,
5678,3195,5864,0,
5679,5141,5865,0,
5680,5478,5866,0,
4547,5682,5867,0,
5683,5147,5868,0,
5684,4782,5869,0,
5685,0,5870,2,
5686,0,5871,2,
5304,5686,5872,1,
5687,4787,5873,0,
5156,5689,5874,0,
5688,4479,5875,0,
5652,2487,5876,0,
5690,4793,5877,0,
4491,5635,5878,0,
5693,0,5879,2,
5691,4991,5880,0,
5159,5692,5881,0,
4796,5693,5882,1,
5694,0,5883,2,
4805,5695,5884,1,
5695,0,5885,2,
5696,4577,5886,0,
5697,5497,5887,0,
5698,5318,5888,0,
5169,5701,5889,0,
5700,0,5890,2,
5702,0,5891,2,
5321,5703,5892,0,
5324,5704,5893,0,
5505,5706,5894,0,
5329,5707,5895,1,
5707,0,5896,2,
5708,0,5897,2,
5710,5510,5898,0,
5015,5709,5899,0,
5711,0,5900,2,
5862,3804,5901,0,
5713,5341,5902,0,
5714,5715,5903,0,
762,5717,5904,0,
5716,0,5905,2,
757,5719,5906,0,
5720,0,5907,2,
5718,0,5908,2,
5726,5534,5909,0,
5722,5721,5910,0,
5724,5723,5911,0,
764,5717,5912,0,
5360,5727,5913,0,
762,5719,5914,0,
5541,5731,5915,0,
5738,0,5916,2,
5371,5737,5917,0,
767,5717,5918,0,
5364,5739,5919,0,
5732,0,5920,2,
5209,5733,5921,1,
5729,0,5922,2,
5734,0,5923,2,
5736,5735,5924,0,
5742,5378,5925,0,
5742,0,5926,2,
757,5717,5927,0,
5561,5744,5928,0,
5733,0,5929,2,
5745,5560,5930,0,
138,5743,5931,0,
5748,0,5932,2,
5749,5752,5933,0,
5750,5566,5934,0,
5377,5729,5935,1,
5755,0,5936,2,
5756,5580,5937,0,
135,5761,5938,0,
5764,5763,5939,0,
5766,0,5940,2,
5759,5758,5941,0,
5770,5768,5942,0,
5760,0,5943,2,
5762,5767,5944,0,
5775,0,5945,2,
5771,0,5946,2,
5777,4012,5947,0,
5772,5732,5948,1,
5773,0,5949,2,
5753,0,5950,2,
119,5779,5951,0,
4880,5780,5952,0,
767,5719,5953,0,
5781,0,5954,2,
1551,5719,5955,0,
5785,0,5956,2,
5597,5782,5957,0,
435,5772,5958,0,
5789,0,5959,2,
5601,5788,5960,0,
1551,5717,5961,0,
5790,5224,5962,0,
5791,4417,5963,0,
5795,5612,5964,0,
5796,5227,5965,0,
5793,0,5966,2,
273,5772,5967,0,
5794,0,5968,2,
5798,0,5969,2,
5792,1567,5970,0,
5616,5800,5971,0,
756,5772,5972,0,
761,5772,5973,0,
5805,0,5974,2,
5804,0,5975,2,
5808,5809,5976,0,
1091,5772,5977,0,
5625,5810,5978,0,
5811,3603,5979,0,
769,5772,5980,0,
760,5772,5981,0,
5814,0,5982,2,
763,5772,5983,0,
5813,5812,5984,0,
5817,4921,5985,0,
5816,0,5986,2,
4442,5815,5987,0,
5820,4685,5988,0,
466,5772,5989,0,
5821,4322,5990,0,
1090,5772,5991,0,
1087,5772,5992,0,
5824,4462,5993,0,
5825,0,5994,2,
5826,5104,5995,0,
5790,0,5996,2,
5822,4461,5997,0,
5823,4122,5998,0,
5617,5800,5999,1,
4124,5792,6000,0,
5800,0,6001,2,
1095,5772,6002,0,
1561,5772,6003,0,
5800,5806,6004,0,
5829,5830,6005,0,
5828,0,6006,2,
5430,5831,6007,0,
1102,5772,6008,0,
5832,4138,6009,0,
5617,5800,6010,0,
1656,5772,6011,0,
5833,4939,6012,0,
5835,4484,6013,0,
5836,4733,6014,0,
5837,0,6015,2,
119,5772,6016,0,
5839,4739,6017,0,
3707,5838,6018,0,
5840,4494,6019,0,
5841,4169,6020,0,
5842,4499,6021,0,
5843,3736,6022,0,
5844,4749,6023,0,
5845,4507,6024,0,
5846,4195,6025,0,
5848,4517,6026,0,
5847,4516,6027,0,
5275,5849,6028,0,
5851,5280,6029,0,
5852,0,6030,2,
5853,4764,6031,0,
5854,5669,6032,0,
5855,3793,6033,0,
5461,5856,6034,0,
5858,5857,6035,0,
5859,4539,6036,0,
5861,0,6037,2,
5475,5863,6038,0,
5796,4235,6039,0,
5865,3810,6040,0,
5105,5815,6041,0,
5866,4238,6042,0,
5867,0,6043,2,
5868,4781,6044,0,
5870,5869,6045,1,
4929,5820,6046,0,
5869,5870,6047,0,
5869,0,6048,2,
5486,5871,6049,0,
5873,4790,6050,0,
5875,5307,6051,0,
5157,5874,6052,1,
5874,0,6053,2,
5876,2324,6054,0,
4992,5879,6055,0,
5878,5311,6056,0,
5880,4258,6057,0,
5881,4259,6058,0,
5820,5248,6059,0,
4999,5885,6060,0,
5886,0,6061,2,
5887,4268,6062,0,
5888,4269,6063,0,
5889,3861,6064,0,
5852,4222,6065,1,
5892,0,6066,2,
5326,5893,6067,1,
5893,0,6068,2,
5894,5009,6069,0,
5508,5896,6070,0,
4824,5899,6071,1,
5899,0,6072,2,
5898,3871,6073,0,
5469,5864,6074,0,
5902,5519,6075,0,
5904,0,6076,2,
5715,5905,6077,0,
5908,5728,6078,0,
5906,0,6079,2,
5910,5542,6080,0,
5911,5545,6081,0,
5912,0,6082,2,
5914,0,6083,2,
5913,0,6084,2,
5919,0,6085,2,
5917,5375,6086,0,
5916,5551,6087,0,
5924,5557,6088,0,
5921,0,6089,2,
5917,0,6090,2,
5920,5342,6091,1,
5918,0,6092,2,
5377,5922,6093,0,
5926,5562,6094,0,
5925,0,6095,2,
5209,5929,6096,0,
5927,0,6097,2,
5582,5932,6098,0,
5933,5576,6099,0,
5920,5520,6100,0,
5935,0,6101,2,
5919,5769,6102,0,
435,5920,6103,0,
5939,5591,6104,0,
5943,5776,6105,0,
5948,0,6106,2,
5947,3476,6107,0,
5772,5920,6108,0,
5952,0,6109,2,
5953,0,6110,2,
5955,0,6111,2,
5954,5784,6112,0,
273,5920,6113,0,
5958,0,6114,2,
5956,5786,6115,0,
756,5920,6116,0,
5961,0,6117,2,
769,5920,6118,0,
5962,0,6119,2,
761,5920,6120,0,
5963,0,6121,2,
1091,5920,6122,0,
3559,5970,6123,0,
5967,0,6124,2,
5965,5405,6125,0,
763,5920,6126,0,
5971,0,6127,2,
760,5920,6128,0,
5972,0,6129,2,
5973,0,6130,2,
5977,0,6131,2,
466,5920,6132,0,
5980,0,6133,2,
1087,5920,6134,0,
5979,0,6135,2,
1090,5920,6136,0,
5978,3613,6137,0,
5984,4106,6138,0,
5981,0,6139,2,
5983,0,6140,2,
5985,5634,6141,0,
5986,5819,6142,0,
4709,5987,6143,0,
1095,5920,6144,0,
5988,5101,6145,0,
5989,0,6146,2,
1561,5920,6147,0,
5991,0,6148,2,
5990,4716,6149,0,
5992,0,6150,2,
5993,0,6151,2,
5997,0,6152,2,
5995,4932,6153,0,
5998,0,6154,2,
6000,1997,6155,0,
6002,0,6156,2,
1102,5920,6157,0,
5803,6004,6158,1,
6003,0,6159,2,
6005,4469,6160,0,
6007,3669,6161,0,
1656,5920,6162,0,
6008,0,6163,2,
6009,0,6164,2,
6012,4145,6165,0,
6011,0,6166,2,
6013,0,6167,2,
119,5920,6168,0,
6014,4155,6169,0,
6013,5837,6170,1,
6017,0,6171,2,
5653,6018,6172,0,
6019,4742,6173,0,
6020,4171,6174,0,
6021,0,6175,2,
6022,0,6176,2,
6023,4186,6177,0,
6024,3746,6178,0,
6025,0,6179,2,
6027,4519,6180,0,
6026,0,6181,2,
6028,5850,6182,0,
6029,4760,6183,0,
4222,6030,6184,0,
6031,4530,6185,0,
6032,4533,6186,0,
6033,1446,6187,0,
6034,0,6188,2,
461,258,6189,1,
6189,6017,6190,0,
461,6190,6191,1,
6035,0,6192,2,
6033,5864,6193,0,
6038,5142,6194,0,
6039,3809,6195,0,
6041,4778,6196,0,
6042,3816,6197,0,
6044,0,6198,2,
6047,0,6199,2,
5300,6046,6200,0,
6049,0,6201,2,
6050,3828,6202,0,
5308,6053,6203,0,
6051,4791,6204,0,
5877,6054,6205,0,
6055,0,6206,2,
6058,3837,6207,0,
6057,0,6208,2,
6056,4260,6209,0,
6059,4801,6210,0,
6060,0,6211,2,
6062,3856,6212,0,
6063,3857,6213,0,
6064,4583,6214,0,
6065,0,6215,2,
6067,0,6216,2,
6065,5504,6217,0,
5326,6068,6218,0,
6069,4586,6219,0,
6070,0,6220,2,
5016,6072,6221,0,
6073,3872,6222,0,
6074,0,6223,2,
6075,0,6224,2,
6076,5725,6225,0,
5516,6077,6226,1,
6079,5547,6227,0,
6078,5730,6228,0,
185,6081,6229,1,
6083,5559,6230,0,
6082,5741,6231,0,
166,6080,6232,1,
5740,6084,6233,0,
6091,0,6234,2,
6092,5751,6235,0,
5564,6090,6236,0,
6087,5747,6237,0,
6086,0,6238,2,
5568,6085,6239,0,
6093,0,6240,2,
6096,0,6241,2,
6094,0,6242,2,
6097,5757,6243,0,
249,6099,6244,1,
6098,0,6245,2,
6100,0,6246,2,
6102,0,6247,2,
5935,6098,6248,1,
6103,0,6249,2,
259,6104,6250,1,
5063,6107,6251,0,
6108,0,6252,2,
6110,5596,6253,0,
6111,5602,6254,0,
6113,0,6255,2,
5959,6114,6256,0,
6116,0,6257,2,
6117,5797,6258,0,
6119,5614,6259,0,
6120,0,6260,2,
6118,0,6261,2,
6122,0,6262,2,
5618,6123,6263,0,
5803,6125,6264,1,
6125,0,6265,2,
6126,0,6266,2,
6128,0,6267,2,
6127,5806,6268,0,
435,6121,6269,0,
6132,0,6270,2,
6134,0,6271,2,
6135,6137,6272,1,
6136,0,6273,2,
273,6121,6274,0,
6137,0,6275,2,
6138,0,6276,2,
6141,4711,6277,0,
6143,5426,6278,0,
756,6121,6279,0,
6144,0,6280,2,
761,6121,6281,0,
6145,4460,6282,0,
6147,0,6283,2,
6149,4464,6284,0,
1091,6121,6285,0,
6153,4128,6286,0,
6151,6138,6287,1,
769,6121,6288,0,
6152,6154,6289,0,
760,6121,6290,0,
5640,6155,6291,0,
6152,5998,6292,1,
6157,0,6293,2,
763,6121,6294,0,
435,6151,6295,0,
466,6121,6296,0,
1087,6121,6297,0,
6158,0,6298,2,
6160,0,6299,2,
6162,0,6300,2,
273,6151,6301,0,
1090,6121,6302,0,
1095,6121,6303,0,
6161,0,6304,2,
761,6151,6305,0,
1561,6121,6306,0,
760,6151,6307,0,
435,6164,6308,0,
1091,6151,6309,0,
756,6151,6310,0,
6165,0,6311,2,
769,6151,6312,0,
6161,6013,6313,1,
1102,6121,6314,0,
1087,6151,6315,0,
761,6164,6316,0,
273,6164,6317,0,
6169,0,6318,2,
763,6151,6319,0,
466,6151,6320,0,
1656,6121,6321,0,
6167,6015,6322,0,
1091,6164,6323,0,
760,6164,6324,0,
1090,6151,6325,0,
756,6164,6326,0,
769,6164,6327,0,
6172,4490,6328,0,
6171,6169,6329,1,
1095,6151,6330,0,
1561,6151,6331,0,
435,6171,6332,0,
6173,0,6333,2,
763,6164,6334,0,
1087,6164,6335,0,
466,6164,6336,0,
6107,1215,6337,0,
6174,0,6338,2,
1102,6151,6339,0,
119,6121,6340,0,
1090,6164,6341,0,
761,6171,6342,0,
273,6171,6343,0,
1095,6164,6344,0,
1561,6164,6345,0,
1656,6151,6346,0,
760,6171,6347,0,
435,6175,6348,0,
1091,6171,6349,0,
756,6171,6350,0,
6176,6021,6351,1,
769,6171,6352,0,
6177,0,6353,2,
1102,6164,6354,0,
6178,4751,6355,0,
6176,6175,6356,0,
761,6175,6357,0,
1087,6171,6358,0,
273,6175,6359,0,
435,6176,6360,0,
763,6171,6361,0,
466,6171,6362,0,
1656,6164,6363,0,
6177,6025,6364,1,
119,6151,6365,0,
1102,6171,6366,0,
760,6175,6367,0,
6181,6180,6368,1,
761,6176,6369,0,
1091,6175,6370,0,
273,6176,6371,0,
1090,6171,6372,0,
756,6175,6373,0,
6182,4522,6374,0,
1095,6171,6375,0,
769,6175,6376,0,
6180,0,6377,2,
461,258,6378,1,
6378,6165,6379,0,
461,6379,6380,1,
1561,6171,6381,0,
763,6175,6382,0,
756,6176,6383,0,
760,6176,6384,0,
435,6181,6385,0,
6183,0,6386,2,
1087,6175,6387,0,
1091,6176,6388,0,
466,6175,6389,0,
461,258,6390,1,
6390,6169,6391,0,
461,6391,6392,1,
769,6176,6393,0,
6184,0,6394,2,
6185,0,6395,2,
273,6181,6396,0,
119,6164,6397,0,
6186,0,6398,2,
1087,6176,6399,0,
763,6176,6400,0,
1095,6175,6401,0,
466,6176,6402,0,
1090,6175,6403,0,
5462,6187,6404,0,
6188,6183,6405,1,
435,6188,6406,0,
1091,6181,6407,0,
1656,6171,6408,0,
763,6181,6409,0,
1561,6175,6410,0,
6191,462,6411,0,
1102,6176,6412,0,
1656,6175,6413,0,
761,6181,6414,0,
243,6171,6415,0,
1090,6176,6416,0,
1095,6176,6417,0,
466,6181,6418,0,
1656,6176,6419,0,
6188,6035,6420,1,
760,6181,6421,0,
273,6188,6422,0,
769,6181,6423,0,
435,6192,6424,0,
6188,6192,6425,0,
1102,6175,6426,0,
1561,6176,6427,0,
756,6181,6428,0,
1561,6181,6429,0,
119,6176,6430,0,
761,6188,6431,0,
1087,6181,6432,0,
5861,6193,6433,1,
119,6175,6434,0,
1091,6188,6435,0,
6193,0,6436,2,
273,6192,6437,0,
760,6188,6438,0,
1090,6181,6439,0,
756,6188,6440,0,
761,6192,6441,0,
5477,6195,6442,0,
6196,4237,6443,0,
760,6192,6444,0,
1090,6188,6445,0,
1102,6181,6446,0,
756,6192,6447,0,
763,6192,6448,0,
763,6188,6449,0,
1087,6188,6450,0,
1087,6192,6451,0,
466,6188,6452,0,
769,6192,6453,0,
1091,6192,6454,0,
6194,0,6455,2,
6197,0,6456,2,
1090,6192,6457,0,
1095,6188,6458,0,
466,6192,6459,0,
1656,6181,6460,0,
1561,6188,6461,0,
1095,6192,6462,0,
1095,6181,6463,0,
769,6188,6464,0,
119,6181,6465,0,
1102,6188,6466,0,
1561,6192,6467,0,
6198,5869,6468,1,
6198,6048,6469,0,
6200,5303,6470,0,
1102,6192,6471,0,
1656,6188,6472,0,
1656,6192,6473,0,
6202,5488,6474,0,
6203,0,6475,2,
6204,4792,6476,0,
119,6192,6477,0,
119,6188,6478,0,
6205,3833,6479,0,
6209,3840,6480,0,
6207,4994,6481,0,
6210,4572,6482,0,
6212,0,6483,2,
6212,6061,6484,0,
6217,0,6485,2,
6218,0,6486,2,
6219,0,6487,2,
6214,0,6488,2,
5897,6219,6489,1,
6221,0,6490,2,
6222,0,6491,2,
6222,5897,6492,0,
6223,6222,6493,1,
6223,6033,6494,1,
5903,6224,6495,0,
5909,6225,6496,0,
764,6226,6497,0,
5915,6227,6498,0,
5930,6231,6499,0,
757,6226,6500,0,
762,6226,6501,0,
5928,6230,6502,0,
5746,6229,6503,0,
6233,0,6504,2,
767,6226,6505,0,
5931,6232,6506,0,
5934,6235,6507,0,
6236,0,6508,2,
6229,5746,6509,1,
5754,6240,6510,0,
6239,0,6511,2,
6095,6238,6512,0,
5937,6243,6513,0,
5936,6242,6514,0,
6101,6245,6515,0,
5938,6244,6516,0,
6248,6247,6517,0,
5778,6249,6518,0,
6232,5931,6519,1,
6244,5938,6520,1,
6250,5951,6521,1,
6251,0,6522,2,
5957,6253,6523,0,
5960,6254,6524,0,
5951,6250,6525,0,
6260,5969,6526,0,
6121,6251,6527,1,
6257,5966,6528,0,
6259,5234,6529,0,
5964,6258,6530,0,
6261,5968,6531,0,
1551,6226,6532,0,
6264,0,6533,2,
6263,4077,6534,0,
6130,6267,6535,0,
5803,6265,6536,0,
6129,6266,6537,0,
6269,0,6538,2,
6265,5979,6539,1,
6133,6270,6540,0,
6272,0,6541,2,
6265,6135,6542,0,
6135,6275,6543,0,
6274,0,6544,2,
6278,3645,6545,0,
6277,0,6546,2,
6279,0,6547,2,
6275,6277,6548,1,
6281,0,6549,2,
6282,4930,6550,0,
6283,5994,6551,0,
435,6276,6552,0,
6264,6268,6553,1,
6285,0,6554,2,
6284,4129,6555,0,
6288,0,6556,2,
6289,0,6557,2,
6286,0,6558,2,
6287,0,6559,2,
6290,0,6560,2,
6151,6276,6561,0,
6292,0,6562,2,
6291,4132,6563,0,
6159,6293,6564,0,
273,6276,6565,0,
6294,0,6566,2,
6295,0,6567,2,
6296,0,6568,2,
761,6276,6569,0,
6297,0,6570,2,
6299,6161,6571,1,
1091,6276,6572,0,
756,6276,6573,0,
769,6276,6574,0,
6301,0,6575,2,
6302,0,6576,2,
760,6276,6577,0,
6303,0,6578,2,
6299,6304,6579,0,
6305,0,6580,2,
6306,0,6581,2,
1087,6276,6582,0,
763,6276,6583,0,
6310,0,6584,2,
6308,0,6585,2,
466,6276,6586,0,
6309,0,6587,2,
6311,6009,6588,1,
6307,0,6589,2,
6312,0,6590,2,
6304,6167,6591,0,
6311,6164,6592,0,
6314,0,6593,2,
435,6311,6594,0,
6316,0,6595,2,
6315,0,6596,2,
1090,6276,6597,0,
1095,6276,6598,0,
6319,0,6599,2,
6317,0,6600,2,
6318,6165,6601,1,
6320,0,6602,2,
1561,6276,6603,0,
6321,0,6604,2,
6318,6311,6605,0,
761,6311,6606,0,
435,6318,6607,0,
273,6311,6608,0,
6322,0,6609,2,
6323,0,6610,2,
6324,0,6611,2,
6326,0,6612,2,
6325,0,6613,2,
5837,6328,6614,1,
6328,0,6615,2,
6330,0,6616,2,
6329,0,6617,2,
6327,0,6618,2,
1102,6276,6619,0,
6331,0,6620,2,
6171,6318,6621,0,
1091,6311,6622,0,
273,6318,6623,0,
760,6311,6624,0,
761,6318,6625,0,
756,6311,6626,0,
6332,0,6627,2,
769,6311,6628,0,
6334,0,6629,2,
6335,0,6630,2,
6333,6017,6631,1,
6328,6174,6632,1,
1656,6276,6633,0,
6336,0,6634,2,
6337,4497,6635,0,
6339,0,6636,2,
6333,6171,6637,0,
1087,6311,6638,0,
756,6318,6639,0,
435,6333,6640,0,
1091,6318,6641,0,
760,6318,6642,0,
763,6311,6643,0,
6341,0,6644,2,
6333,6021,6645,1,
6343,0,6646,2,
769,6318,6647,0,
466,6311,6648,0,
6342,0,6649,2,
6344,0,6650,2,
6346,0,6651,2,
6345,0,6652,2,
6333,6175,6653,0,
1087,6318,6654,0,
761,6333,6655,0,
273,6333,6656,0,
763,6318,6657,0,
1090,6311,6658,0,
6347,0,6659,2,
6349,0,6660,2,
466,6318,6661,0,
6348,0,6662,2,
1095,6311,6663,0,
6350,0,6664,2,
1561,6311,6665,0,
6351,0,6666,2,
119,6276,6667,0,
6352,0,6668,2,
6354,0,6669,2,
6356,0,6670,2,
760,6333,6671,0,
6355,0,6672,2,
1091,6333,6673,0,
1090,6318,6674,0,
756,6333,6675,0,
6357,0,6676,2,
6361,0,6677,2,
6360,0,6678,2,
6358,0,6679,2,
1095,6318,6680,0,
769,6333,6681,0,
6359,0,6682,2,
6362,0,6683,2,
1102,6311,6684,0,
1561,6318,6685,0,
6363,0,6686,2,
6353,6179,6687,0,
1656,6318,6688,0,
1561,6333,6689,0,
1087,6333,6690,0,
6366,0,6691,2,
763,6333,6692,0,
6369,0,6693,2,
6367,0,6694,2,
6372,0,6695,2,
466,6333,6696,0,
6373,0,6697,2,
6371,0,6698,2,
6370,0,6699,2,
6368,0,6700,2,
6025,6374,6701,1,
6181,6377,6702,0,
1102,6318,6703,0,
1656,6311,6704,0,
6375,0,6705,2,
6380,462,6706,0,
6376,0,6707,2,
6374,0,6708,2,
6381,0,6709,2,
764,6368,6710,0,
1090,6333,6711,0,
273,6377,6712,0,
435,6377,6713,0,
243,6311,6714,0,
6386,6026,6715,1,
1095,6333,6716,0,
6387,0,6717,2,
6388,0,6718,2,
6385,0,6719,2,
6384,0,6720,2,
6382,0,6721,2,
6383,0,6722,2,
4767,6394,6723,0,
6392,462,6724,0,
6374,6185,6725,1,
435,6386,6726,0,
6393,0,6727,2,
6389,0,6728,2,
6396,0,6729,2,
1091,6377,6730,0,
6386,6181,6731,0,
761,6377,6732,0,
243,6318,6733,0,
6399,0,6734,2,
6402,0,6735,2,
6401,0,6736,2,
273,6386,6737,0,
6403,0,6738,2,
6404,5463,6739,0,
6400,0,6740,2,
1090,6377,6741,0,
6405,0,6742,2,
6406,0,6743,2,
756,6386,6744,0,
1102,6333,6745,0,
6412,0,6746,2,
6411,0,6747,2,
6413,0,6748,2,
6408,0,6749,2,
6410,0,6750,2,
6407,0,6751,2,
6188,6386,6752,0,
6409,0,6753,2,
756,6377,6754,0,
119,6333,6755,0,
769,6377,6756,0,
760,6377,6757,0,
769,6386,6758,0,
1095,6377,6759,0,
6415,0,6760,2,
1561,6377,6761,0,
6417,0,6762,2,
6416,0,6763,2,
761,6386,6764,0,
6414,0,6765,2,
1087,6377,6766,0,
6420,0,6767,2,
6419,0,6768,2,
6421,0,6769,2,
6418,0,6770,2,
1091,6386,6771,0,
466,6377,6772,0,
1656,6333,6773,0,
6426,0,6774,2,
6427,0,6775,2,
6423,0,6776,2,
6422,0,6777,2,
6424,0,6778,2,
763,6377,6779,0,
6425,0,6780,2,
1102,6377,6781,0,
6428,0,6782,2,
789,6333,6783,0,
6429,0,6784,2,
760,6386,6785,0,
6432,0,6786,2,
6430,0,6787,2,
6431,0,6788,2,
6435,0,6789,2,
6437,0,6790,2,
1087,6386,6791,0,
6037,6436,6792,0,
763,6386,6793,0,
6434,0,6794,2,
1656,6377,6795,0,
6440,0,6796,2,
6439,0,6797,2,
6442,3812,6798,0,
6438,0,6799,2,
1090,6386,6800,0,
6441,0,6801,2,
1561,6386,6802,0,
6445,0,6803,2,
6448,0,6804,2,
6444,0,6805,2,
1095,6386,6806,0,
6447,0,6807,2,
6443,3814,6808,0,
6449,0,6809,2,
6446,0,6810,2,
6453,0,6811,2,
6451,0,6812,2,
6450,0,6813,2,
6452,0,6814,2,
6454,0,6815,2,
6457,0,6816,2,
1102,6386,6817,0,
6460,0,6818,2,
6461,0,6819,2,
466,6386,6820,0,
6459,0,6821,2,
6458,0,6822,2,
6463,0,6823,2,
6464,0,6824,2,
119,6377,6825,0,
6462,0,6826,2,
1656,6386,6827,0,
6465,0,6828,2,
6466,0,6829,2,
6467,0,6830,2,
6468,0,6831,2,
6470,3822,6832,0,
6469,0,6833,2,
6471,0,6834,2,
6472,0,6835,2,
119,6386,6836,0,
6473,0,6837,2,
6465,249,6838,0,
6474,0,6839,2,
6476,0,6840,2,
6477,0,6841,2,
6478,0,6842,2,
6208,6479,6843,1,
6481,0,6844,2,
6480,4996,6845,0,
6482,3845,6846,0,
6479,0,6847,2,
6481,6208,6848,0,
6483,6213,6849,1,
6483,5886,6850,1,
6487,6214,6851,1,
6219,6488,6852,0,
5708,6487,6853,0,
6491,5708,6854,1,
6492,0,6855,2,
6074,6491,6856,0,
6495,0,6857,2,
5720,6495,6858,1,
6510,5216,6859,0,
185,6496,6860,1,
6497,0,6861,2,
166,6498,6862,1,
258,6499,6863,1,
6500,0,6864,2,
6501,0,6865,2,
6237,6504,6866,0,
185,6502,6867,1,
6505,0,6868,2,
6512,0,6869,2,
6508,6511,6870,0,
6509,0,6871,2,
249,6507,6872,1,
6510,0,6873,2,
166,6513,6874,1,
6516,0,6875,2,
6515,0,6876,2,
6522,5590,6877,1,
249,6523,6878,1,
6522,5772,6879,0,
259,6524,6880,1,
435,6522,6881,0,
259,6530,6882,1,
6527,0,6883,2,
6532,0,6884,2,
6121,6522,6885,0,
6268,6533,6886,0,
6534,0,6887,2,
273,6522,6888,0,
6536,0,6889,2,
761,6522,6890,0,
756,6522,6891,0,
6131,6538,6892,0,
6539,0,6893,2,
1091,6522,6894,0,
6542,0,6895,2,
769,6522,6896,0,
6276,6534,6897,1,
763,6522,6898,0,
6543,0,6899,2,
760,6522,6900,0,
6546,6545,6901,1,
6548,0,6902,2,
6545,0,6903,2,
6552,0,6904,2,
6275,6546,6905,0,
466,6522,6906,0,
6550,4126,6907,0,
1087,6522,6908,0,
6553,0,6909,2,
6555,0,6910,2,
6561,0,6911,2,
6563,0,6912,2,
1090,6522,6913,0,
6565,0,6914,2,
1095,6522,6915,0,
6558,6555,6916,1,
1561,6522,6917,0,
6569,0,6918,2,
6571,0,6919,2,
6164,6563,6920,1,
6573,0,6921,2,
6572,0,6922,2,
6574,0,6923,2,
1102,6522,6924,0,
6577,0,6925,2,
6579,0,6926,2,
6583,0,6927,2,
6582,0,6928,2,
6588,0,6929,2,
6587,6585,6930,0,
6586,0,6931,2,
1656,6522,6932,0,
6591,0,6933,2,
6592,0,6934,2,
6594,0,6935,2,
6597,0,6936,2,
6596,6595,6937,0,
6601,0,6938,2,
6598,0,6939,2,
6603,0,6940,2,
6605,0,6941,2,
6607,0,6942,2,
6608,0,6943,2,
6606,0,6944,2,
119,6522,6945,0,
6015,6615,6946,0,
6619,0,6947,2,
6621,0,6948,2,
6623,0,6949,2,
6622,0,6950,2,
6626,0,6951,2,
6624,0,6952,2,
6625,0,6953,2,
6631,0,6954,2,
6628,0,6955,2,
6615,6338,6956,0,
6633,0,6957,2,
6635,4951,6958,0,
6637,0,6959,2,
6643,0,6960,2,
6641,0,6961,2,
6640,0,6962,2,
6642,0,6963,2,
6638,0,6964,2,
6639,0,6965,2,
6645,0,6966,2,
6647,0,6967,2,
6648,0,6968,2,
6653,0,6969,2,
6658,0,6970,2,
6657,0,6971,2,
6654,0,6972,2,
6655,0,6973,2,
6656,0,6974,2,
6663,0,6975,2,
6661,0,6976,2,
6662,6660,6977,0,
6665,0,6978,2,
6671,0,6979,2,
6675,0,6980,2,
6673,0,6981,2,
6674,0,6982,2,
6672,6022,6983,1,
6681,0,6984,2,
6680,0,6985,2,
6685,0,6986,2,
6684,0,6987,2,
6672,6176,6988,0,
435,6672,6989,0,
6688,0,6990,2,
6689,0,6991,2,
6672,6180,6992,1,
6687,0,6993,2,
6690,0,6994,2,
6692,0,6995,2,
6693,6694,6996,0,
6672,6377,6997,0,
6696,0,6998,2,
6179,6708,6999,0,
6703,0,7000,2,
6704,0,7001,2,
6702,0,7002,2,
6706,0,7003,2,
761,6672,7004,0,
273,6672,7005,0,
1091,6672,7006,0,
6713,0,7007,2,
6712,0,7008,2,
6714,0,7009,2,
6711,0,7010,2,
6716,0,7011,2,
6722,6721,7012,0,
6715,0,7013,2,
6726,0,7014,2,
6708,6395,7015,0,
6727,6728,7016,0,
760,6672,7017,0,
6723,0,7018,2,
6724,0,7019,2,
769,6672,7020,0,
756,6672,7021,0,
6732,0,7022,2,
6730,0,7023,2,
6731,0,7024,2,
6733,0,7025,2,
6185,6739,7026,1,
6739,0,7027,2,
6737,0,7028,2,
1561,6672,7029,0,
6745,0,7030,2,
6744,0,7031,2,
6741,0,7032,2,
6752,0,7033,2,
763,6672,7034,0,
466,6672,7035,0,
1087,6672,7036,0,
1102,6672,7037,0,
363,6755,7038,1,
6756,0,7039,2,
6754,0,7040,2,
6757,0,7041,2,
6739,5861,7042,1,
6766,0,7043,2,
6761,0,7044,2,
6764,0,7045,2,
6759,0,7046,2,
6758,0,7047,2,
6742,6767,7048,0,
1095,6672,7049,0,
6772,0,7050,2,
6773,0,7051,2,
6771,0,7052,2,
1090,6672,7053,0,
1656,6672,7054,0,
6779,0,7055,2,
119,6672,7056,0,
6781,0,7057,2,
6775,6774,7058,0,
6783,0,7059,2,
234,6672,7060,0,
6785,0,7061,2,
6787,6434,7062,1,
6793,0,7063,2,
6792,0,7064,2,
6789,6790,7065,0,
6791,0,7066,2,
6430,6794,7067,0,
6798,0,7068,2,
6800,0,7069,2,
6802,0,7070,2,
6795,0,7071,2,
6806,0,7072,2,
6805,1088,7073,0,
6809,6807,7074,0,
6803,6804,7075,0,
6814,6811,7076,0,
6456,6808,7077,1,
6808,0,7078,2,
6808,6456,7079,0,
6817,0,7080,2,
6820,0,7081,2,
6822,6821,7082,0,
6825,0,7083,2,
6827,0,7084,2,
6829,6830,7085,0,
6828,6825,7086,1,
6825,6828,7087,0,
6832,0,7088,2,
6835,6834,7089,0,
6828,135,7090,1,
6839,6476,7091,1,
6838,0,7092,2,
6476,6839,7093,0,
6840,6479,7094,1,
6841,6478,7095,1,
6479,6840,7096,0,
6844,6057,7097,1,
6844,6845,7098,1,
6845,6844,7099,0,
6057,6847,7100,0,
6846,0,7101,2,
6848,0,7102,2,
6845,0,7103,2,
6061,6846,7104,1,
6212,6849,7105,0,
6849,6484,7106,1,
6484,6849,7107,0,
4966,6723,7108,1,
6852,0,7109,2,
6853,0,7110,2,
6856,0,7111,2,
764,6858,7112,0,
5907,6857,7113,0,
6859,0,7114,2,
6860,0,7115,2,
6088,6861,7116,0,
757,6858,7117,0,
6506,6862,7118,0,
6868,5589,7119,0,
6865,5588,7120,0,
6866,0,7121,2,
6864,5587,7122,0,
5765,6863,7123,0,
5940,6872,7124,0,
6867,0,7125,2,
6870,6869,7126,0,
5391,6873,7127,0,
762,6858,7128,0,
5950,6860,7129,0,
6872,0,7130,2,
767,6858,7131,0,
6877,0,7132,2,
6878,0,7133,2,
6862,6506,7134,1,
6880,6525,7135,1,
6879,0,7136,2,
6874,0,7137,2,
6881,0,7138,2,
6882,5409,7139,1,
6525,6880,7140,0,
5409,6882,7141,0,
6884,5622,7142,0,
6885,0,7143,2,
6887,5963,7144,1,
6888,0,7145,2,
6886,0,7146,2,
1551,6858,7147,0,
6890,0,7148,2,
6887,6121,7149,0,
6891,0,7150,2,
435,6887,7151,0,
6893,6541,7152,0,
6894,0,7153,2,
6897,0,7154,2,
6896,0,7155,2,
6898,0,7156,2,
6873,5391,7157,1,
6276,6887,7158,0,
6895,6899,7159,0,
6901,0,7160,2,
6900,0,7161,2,
273,6887,7162,0,
6546,6903,7163,0,
6903,6152,7164,0,
761,6887,7165,0,
6554,6904,7166,0,
6906,0,7167,2,
6907,0,7168,2,
6903,5997,7169,1,
6905,0,7170,2,
6558,6910,7171,0,
6908,0,7172,2,
756,6887,7173,0,
1091,6887,7174,0,
6913,0,7175,2,
769,6887,7176,0,
6910,6160,7177,1,
6558,6907,7178,1,
6912,5993,7179,1,
6915,0,7180,2,
760,6887,7181,0,
6916,0,7182,2,
6912,6151,7183,0,
6910,6299,7184,0,
6917,0,7185,2,
435,6912,7186,0,
763,6887,7187,0,
466,6887,7188,0,
6920,0,7189,2,
1087,6887,7190,0,
6164,6912,7191,0,
6924,0,7192,2,
761,6912,7193,0,
6580,6925,7194,0,
1090,6887,7195,0,
273,6912,7196,0,
1095,6887,7197,0,
1561,6887,7198,0,
6584,6927,7199,0,
6590,6931,7200,0,
6932,0,7201,2,
760,6912,7202,0,
1091,6912,7203,0,
756,6912,7204,0,
769,6912,7205,0,
1102,6887,7206,0,
763,6912,7207,0,
1087,6912,7208,0,
466,6912,7209,0,
6944,6611,7210,0,
1656,6887,7211,0,
6610,6942,7212,0,
6620,6947,7213,0,
1090,6912,7214,0,
6946,0,7215,2,
1095,6912,7216,0,
6951,6629,7217,0,
1561,6912,7218,0,
6950,6627,7219,0,
6953,6952,7220,0,
6955,6634,7221,0,
6956,0,7222,2,
6958,4498,7223,0,
1102,6912,7224,0,
6962,6961,7225,0,
119,6887,7226,0,
6965,6960,7227,0,
6649,6963,7228,0,
6967,6968,7229,0,
1656,6912,7230,0,
6664,6971,7231,0,
6973,6659,7232,0,
6668,6976,7233,0,
6978,6669,7234,0,
6980,6677,7235,0,
6981,6678,7236,0,
6676,6979,7237,0,
6983,0,7238,2,
6984,6683,7239,0,
6988,0,7240,2,
6986,6987,7241,0,
6991,6691,7242,0,
6989,0,7243,2,
6992,0,7244,2,
119,6912,7245,0,
6697,6995,7246,0,
6997,0,7247,2,
6707,6998,7248,0,
6999,0,7249,2,
6709,7000,7250,0,
6997,6710,7251,0,
7005,0,7252,2,
7004,0,7253,2,
7006,0,7254,2,
6718,7007,7255,0,
7017,0,7256,2,
6729,7014,7257,0,
7015,0,7258,2,
5134,7018,7259,0,
7021,0,7260,2,
7020,0,7261,2,
7029,0,7262,2,
7028,6743,7263,0,
6395,7027,7264,0,
6753,7031,7265,0,
6750,7030,7266,0,
7035,0,7267,2,
7034,0,7268,2,
7036,0,7269,2,
7038,0,7270,2,
7037,0,7271,2,
6765,7041,7272,0,
7027,6037,7273,0,
6769,7045,7274,0,
6770,7047,7275,0,
7049,0,7276,2,
7033,6780,7277,0,
7053,0,7278,2,
7052,6777,7279,0,
6776,7050,7280,0,
7054,0,7281,2,
6784,7057,7282,0,
7056,0,7283,2,
6782,7055,7284,0,
464,7059,7285,0,
7061,6788,7286,0,
7060,0,7287,2,
7063,6796,7288,0,
7066,6799,7289,0,
7067,0,7290,2,
7062,0,7291,2,
7068,6808,7292,1,
6810,7070,7293,0,
7073,6813,7294,0,
7068,7078,7295,0,
7056,166,7296,0,
7079,0,7297,2,
7080,6819,7298,0,
7081,6824,7299,0,
7087,0,7300,2,
7090,6836,7301,1,
6836,7090,7302,0,
7093,0,7303,2,
7095,0,7304,2,
7096,0,7305,2,
7100,0,7306,2,
7101,6845,7307,1,
7099,0,7308,2,
6846,7103,7309,0,
7104,0,7310,2,
5886,7101,7311,0,
7105,0,7312,2,
7108,0,7313,2,
7107,0,7314,2,
7112,0,7315,2,
7113,0,7316,2,
7114,6089,7317,0,
5753,7115,7318,0,
258,7116,7319,1,
5771,7118,7320,1,
7117,0,7321,2,
5941,7119,7322,0,
5942,7120,7323,0,
6514,7121,7324,0,
7123,0,7325,2,
5944,7122,7326,0,
7126,0,7327,2,
7124,0,7328,2,
7118,5946,7329,0,
7127,0,7330,2,
7128,0,7331,2,
7129,0,7332,2,
5766,7130,7333,0,
7131,0,7334,2,
6262,7138,7335,0,
7139,7140,7336,1,
7140,7139,7337,0,
7141,0,7338,2,
5976,7142,7339,0,
6889,7146,7340,0,
7144,0,7341,2,
7147,0,7342,2,
7149,0,7343,2,
7148,6139,7344,0,
7150,6140,7345,0,
7151,0,7346,2,
7155,6146,7347,0,
6547,7156,7348,0,
7158,0,7349,2,
6549,7161,7350,0,
7162,0,7351,2,
6902,7160,7352,0,
7163,0,7353,2,
7164,0,7354,2,
7168,5998,7355,1,
7165,0,7356,2,
7169,0,7357,2,
6558,7168,7358,0,
6556,7167,7359,0,
7171,0,7360,2,
7173,0,7361,2,
7174,0,7362,2,
7168,6154,7363,0,
7176,0,7364,2,
7179,0,7365,2,
7177,0,7366,2,
7178,0,7367,2,
7181,0,7368,2,
7185,6163,7369,0,
7184,0,7370,2,
7183,0,7371,2,
7187,0,7372,2,
7186,0,7373,2,
7188,0,7374,2,
7190,0,7375,2,
6581,7192,7376,0,
7191,0,7377,2,
7195,0,7378,2,
7196,0,7379,2,
7193,0,7380,2,
7197,0,7381,2,
7198,0,7382,2,
7202,0,7383,2,
7204,0,7384,2,
7203,0,7385,2,
7205,0,7386,2,
7206,0,7387,2,
7208,0,7388,2,
7207,0,7389,2,
7209,0,7390,2,
7211,0,7391,2,
7214,0,7392,2,
7216,0,7393,2,
7218,0,7394,2,
7223,4178,7395,0,
7224,0,7396,2,
7230,0,7397,2,
7244,6700,7398,0,
6699,7243,7399,0,
7247,6700,7400,0,
7002,7247,7401,0,
7251,0,7402,2,
7254,6719,7403,0,
7253,6720,7404,0,
7257,7023,7405,0,
7259,0,7406,2,
7022,7256,7407,0,
7261,6735,7408,0,
7260,6740,7409,0,
7262,6746,7410,0,
7263,6751,7411,0,
7264,0,7412,2,
7040,7268,7413,0,
7039,7267,7414,0,
7044,7271,7415,0,
7273,0,7416,2,
7285,6434,7417,1,
7283,166,7418,0,
7285,0,7419,2,
7292,0,7420,2,
7295,0,7421,2,
7296,0,7422,2,
7302,0,7423,2,
7309,0,7424,2,
7311,0,7425,2,
7312,6214,7426,1,
6214,7312,7427,0,
6228,7315,7428,0,
5923,7316,7429,0,
7317,0,7430,2,
7319,0,7431,2,
7318,0,7432,2,
7321,5774,7433,0,
7320,0,7434,2,
7319,6509,7435,0,
249,7322,7436,1,
185,7323,7437,1,
166,7326,7438,1,
6870,7324,7439,0,
7329,0,7440,2,
6517,7327,7441,0,
6876,7330,7442,0,
7328,6875,7443,0,
7333,0,7444,2,
7331,5783,7445,0,
7334,5787,7446,0,
7320,7137,7447,1,
7324,0,7448,2,
7337,0,7449,2,
259,7339,7450,1,
7340,0,7451,2,
7342,5818,7452,0,
7346,7153,7453,0,
6539,7340,7454,1,
7354,6557,7455,0,
7170,7353,7456,0,
7357,6562,7457,0,
7355,0,7458,2,
7358,0,7459,2,
7356,6560,7460,0,
6567,7362,7461,0,
7361,6566,7462,0,
7363,0,7463,2,
7364,6568,7464,0,
7367,7182,7465,0,
6918,7368,7466,0,
6922,7373,7467,0,
6921,7372,7468,0,
6923,7374,7469,0,
6928,7380,7470,0,
7382,6593,7471,0,
6935,7385,7472,0,
7384,6599,7473,0,
7386,6602,7474,0,
6940,7387,7475,0,
6612,7389,7476,0,
6618,7390,7477,0,
7394,6636,7478,0,
7395,0,7479,2,
6174,7395,7480,1,
6652,7396,7481,0,
7395,6177,7482,1,
7400,764,7483,0,
7008,7402,7484,0,
5286,7406,7485,0,
7418,0,7486,2,
7419,6794,7487,0,
7092,7423,7488,0,
7107,7426,7489,0,
7426,7106,7490,0,
7427,0,7491,2,
7429,0,7492,2,
258,7428,7493,1,
6091,7429,7494,1,
7430,6241,7495,0,
7431,6871,7496,0,
6503,7432,7497,0,
7435,0,7498,2,
6105,7433,7499,0,
7434,6874,7500,0,
7439,0,7501,2,
7437,0,7502,2,
7438,0,7503,2,
7436,0,7504,2,
7443,0,7505,2,
7442,6241,7506,0,
6112,7445,7507,0,
6115,7446,7508,0,
6520,7438,7509,0,
6519,7437,7510,0,
6521,7436,7511,0,
7447,0,7512,2,
6512,7448,7513,0,
7338,7449,7514,0,
7450,5630,7515,1,
6893,7451,7516,0,
5630,7450,7517,0,
6142,7452,7518,0,
7152,7451,7519,0,
7455,0,7520,2,
7457,7458,7521,0,
7459,7360,7522,0,
7465,7366,7523,0,
6338,7479,7524,0,
7479,6353,7525,0,
7484,7403,7526,0,
7485,0,7527,2,
7287,7486,7528,0,
7487,0,7529,2,
6478,7488,7530,1,
7488,0,7531,2,
7489,0,7532,2,
5468,7485,7533,1,
6519,7502,7534,1,
6234,7492,7535,0,
7493,6503,7536,1,
764,7494,7537,0,
7495,0,7538,2,
7497,7493,7539,0,
6503,7493,7540,0,
166,7499,7541,1,
7500,0,7542,2,
6521,7504,7543,1,
7441,7501,7544,0,
6520,7503,7545,1,
7506,6109,7546,0,
7505,7444,7547,0,
185,7507,7548,1,
757,7494,7549,0,
7510,0,7550,2,
7509,0,7551,2,
249,7508,7552,1,
767,7494,7553,0,
762,7494,7554,0,
7511,0,7555,2,
7513,0,7556,2,
7514,0,7557,2,
7515,7514,7558,1,
7516,0,7559,2,
7517,0,7560,2,
259,7518,7561,1,
1551,7494,7562,0,
7519,0,7563,2,
7520,7458,7564,0,
7522,0,7565,2,
7523,6919,7566,0,
7524,0,7567,2,
7525,0,7568,2,
5468,7527,7569,0,
7528,0,7570,2,
6842,7531,7571,0,
7532,7491,7572,0,
7533,0,7573,2,
6867,7536,7574,0,
7535,0,7575,2,
7536,0,7576,2,
7537,0,7577,2,
7538,5949,7578,0,
7115,7540,7579,1,
7539,0,7580,2,
7440,7542,7581,0,
7541,0,7582,2,
7544,0,7583,2,
7534,0,7584,2,
7545,0,7585,2,
7543,0,7586,2,
7541,6516,7587,1,
7548,0,7588,2,
6516,7541,7589,0,
7552,0,7590,2,
7549,0,7591,2,
7553,0,7592,2,
7554,0,7593,2,
7134,7548,7594,0,
7135,7552,7595,0,
6870,7556,7596,0,
7515,7557,7597,0,
7558,0,7598,2,
7559,6895,7599,0,
7561,5427,7600,1,
7562,0,7601,2,
7159,7563,7602,0,
5427,7561,7603,0,
7564,0,7604,2,
7565,7366,7605,0,
7569,0,7606,2,
7570,6434,7607,1,
6434,7570,7608,0,
7571,0,7609,2,
5860,7606,7610,0,
7580,7332,7611,0,
6246,7575,7612,0,
7574,0,7613,2,
7125,7576,7614,0,
7577,5945,7615,0,
7578,0,7616,2,
5753,7579,7617,1,
7581,0,7618,2,
7328,7582,7619,0,
7547,7586,7620,0,
7546,7583,7621,0,
7134,7588,7622,1,
7587,7133,7623,1,
7592,5801,7624,0,
7591,5799,7625,0,
7593,5802,7626,0,
7135,7590,7627,1,
5766,7589,7628,1,
7587,6878,7629,0,
7506,7583,7630,0,
7594,0,7631,2,
7442,7583,7632,0,
7595,0,7633,2,
7589,5940,7634,0,
7596,0,7635,2,
7545,7581,7636,1,
7597,0,7637,2,
6876,7583,7638,0,
6272,7599,7639,1,
7601,5827,7640,0,
7603,0,7641,2,
7602,0,7642,2,
6548,7602,7643,1,
7604,7463,7644,0,
7605,0,7645,2,
7608,0,7646,2,
7325,7613,7647,0,
7496,7613,7648,0,
7612,0,7649,2,
7614,0,7650,2,
7615,6518,7651,0,
5948,7612,7652,1,
7616,6109,7653,0,
7611,0,7654,2,
7617,0,7655,2,
7619,0,7656,2,
7585,7618,7657,0,
7621,0,7658,2,
7611,7534,7659,1,
7622,0,7660,2,
7623,0,7661,2,
7628,7130,7662,1,
6531,7624,7663,0,
6528,7625,7664,0,
6526,7626,7665,0,
7627,0,7666,2,
7629,0,7667,2,
7628,0,7668,2,
7632,0,7669,2,
7630,0,7670,2,
7634,0,7671,2,
7635,6247,7672,0,
7638,7157,7673,1,
7560,7637,7674,0,
7638,0,7675,2,
6551,7640,7676,0,
7352,7642,7677,0,
6902,7642,7678,0,
7645,7370,7679,0,
7610,0,7680,2,
7422,7646,7681,0,
7610,3874,7682,1,
7648,0,7683,2,
7647,7498,7684,0,
6106,7649,7685,0,
258,7651,7686,1,
764,7652,7687,0,
7653,0,7688,2,
7584,7654,7689,0,
7657,0,7690,2,
7620,7656,7691,0,
762,7652,7692,0,
757,7652,7693,0,
7659,0,7694,2,
166,7664,7695,1,
7662,0,7696,2,
185,7665,7697,1,
249,7663,7698,1,
7668,6872,7699,0,
7317,7669,7700,0,
7578,7670,7701,0,
767,7652,7702,0,
6248,7672,7703,1,
7673,0,7704,2,
7674,0,7705,2,
7157,7675,7706,0,
7600,7674,7707,1,
1551,7652,7708,0,
259,7676,7709,1,
7677,0,7710,2,
7678,0,7711,2,
7679,0,7712,2,
7680,3874,7713,0,
7681,0,7714,2,
6825,7681,7715,1,
7682,0,7716,2,
7685,0,7717,2,
7650,7683,7718,0,
7684,0,7719,2,
7686,7617,7720,0,
7687,0,7721,2,
7686,0,7722,2,
5604,7688,7723,0,
7689,0,7724,2,
7551,7690,7725,0,
7691,0,7726,2,
7692,0,7727,2,
7693,0,7728,2,
7695,7696,7729,1,
7697,7512,7730,1,
7698,0,7731,2,
7699,0,7732,2,
7700,0,7733,2,
7702,0,7734,2,
7701,0,7735,2,
7695,7662,7736,0,
7697,7447,7737,0,
7336,7698,7738,0,
7703,0,7739,2,
7600,7705,7740,0,
7707,0,7741,2,
7706,0,7742,2,
7709,5643,7743,1,
7708,0,7744,2,
5643,7709,7745,0,
7456,7710,7746,0,
7711,7170,7747,0,
7712,6919,7748,0,
7713,0,7749,2,
7083,7714,7750,0,
7718,7719,7751,0,
6252,7717,7752,0,
7721,6255,7753,0,
7720,0,7754,2,
7722,7655,7755,0,
7723,5224,7756,0,
7550,7724,7757,0,
7555,7726,7758,0,
7725,0,7759,2,
7727,5975,7760,0,
7728,5974,7761,0,
7730,0,7762,2,
7336,7731,7763,1,
7729,0,7764,2,
7671,7732,7765,0,
7736,0,7766,2,
7734,5982,7767,0,
7735,6109,7768,0,
7733,6241,7769,0,
7737,0,7770,2,
7738,0,7771,2,
7723,7658,7772,0,
7623,7725,7773,1,
7704,7739,7774,0,
7740,0,7775,2,
7742,7330,7776,0,
7744,6006,7777,0,
7745,0,7778,2,
7746,0,7779,2,
6901,7747,7780,1,
7169,7746,7781,1,
7748,0,7782,2,
4543,7749,7783,0,
7750,0,7784,2,
7752,0,7785,2,
7751,0,7786,2,
7753,6256,7787,0,
6877,7752,7788,1,
7756,7658,7789,0,
7755,0,7790,2,
7757,0,7791,2,
7758,0,7792,2,
7661,7759,7793,0,
7757,7622,7794,1,
6535,7760,7795,0,
6537,7761,7796,0,
7763,0,7797,2,
7543,7765,7798,1,
6540,7767,7799,0,
5773,7769,7800,1,
5604,7768,7801,1,
7627,7758,7802,1,
7772,0,7803,2,
7774,6135,7804,0,
7641,7775,7805,0,
7774,6265,7806,0,
5921,7776,7807,1,
7774,5803,7808,0,
6564,7777,7809,0,
7521,7779,7810,0,
7774,6275,7811,0,
7357,7779,7812,0,
7774,6546,7813,0,
7457,7779,7814,0,
7774,6903,7815,0,
7774,6152,7816,0,
7774,6154,7817,0,
7774,7168,7818,0,
7774,6558,7819,0,
7774,6910,7820,0,
7774,6299,7821,0,
7774,6167,7822,0,
7774,6304,7823,0,
7774,6015,7824,0,
7774,6615,7825,0,
7774,0,7826,2,
7774,6338,7827,0,
7774,7479,7828,0,
7774,6353,7829,0,
7774,6708,7830,0,
7774,6179,7831,0,
7774,7027,7832,0,
7783,0,7833,2,
7774,6395,7834,0,
7774,6037,7835,0,
7774,6436,7836,0,
7783,4776,7837,1,
7754,7786,7838,0,
7132,7785,7839,0,
258,7787,7840,1,
764,7788,7841,0,
7789,0,7842,2,
7660,7791,7843,0,
7666,7792,7844,0,
7793,0,7845,2,
762,7788,7846,0,
185,7795,7847,1,
757,7788,7848,0,
166,7796,7849,1,
7794,0,7850,2,
7807,0,7851,2,
767,7788,7852,0,
249,7799,7853,1,
7801,0,7854,2,
7803,5996,7855,0,
7804,0,7856,2,
7805,0,7857,2,
7808,0,7858,2,
7806,0,7859,2,
7743,7805,7860,1,
259,7809,7861,1,
1551,7788,7862,0,
7810,0,7863,2,
6298,7807,7864,0,
7811,0,7865,2,
7812,0,7866,2,
7813,0,7867,2,
7814,0,7868,2,
7815,0,7869,2,
7816,0,7870,2,
7817,0,7871,2,
7818,0,7872,2,
7819,0,7873,2,
7820,0,7874,2,
7821,0,7875,2,
7822,0,7876,2,
7823,0,7877,2,
7824,0,7878,2,
7825,0,7879,2,
7827,0,7880,2,
7829,0,7881,2,
7828,0,7882,2,
7830,0,7883,2,
7831,0,7884,2,
7832,0,7885,2,
4776,7833,7886,0,
7834,0,7887,2,
7835,0,7888,2,
7836,0,7889,2,
7837,0,7890,2,
7839,0,7891,2,
7838,0,7892,2,
7659,7840,7893,0,
7841,0,7894,2,
6529,7842,7895,0,
7840,0,7896,2,
7843,0,7897,2,
7667,7845,7898,0,
7844,0,7899,2,
6259,7842,7900,0,
7846,0,7901,2,
7849,0,7902,2,
7847,0,7903,2,
7848,0,7904,2,
7673,7851,7905,1,
7800,7851,7906,1,
7798,7849,7907,0,
7636,7847,7908,0,
7853,7598,7909,1,
7852,0,7910,2,
7853,7598,7911,0,
7800,7854,7912,1,
5224,7855,7913,1,
7743,7857,7914,0,
7860,0,7915,2,
7861,5646,7916,1,
7862,0,7917,2,
5646,7861,7918,0,
6010,7864,7919,0,
7644,7863,7920,0,
7866,7354,7921,0,
7455,7868,7922,0,
7886,0,7923,2,
7136,7891,7924,0,
7790,7892,7925,0,
7893,0,7926,2,
7894,6124,7927,0,
7895,0,7928,2,
7896,7694,7929,0,
7631,7897,7930,0,
7633,7899,7931,0,
7898,0,7932,2,
7900,0,7933,2,
7913,0,7934,2,
7636,7903,7935,1,
7798,7902,7936,1,
7904,6273,7937,0,
7901,6271,7938,0,
7905,7739,7939,0,
7906,0,7940,2,
7905,0,7941,2,
7907,0,7942,2,
7908,0,7943,2,
7905,7703,7944,0,
7910,6280,7945,0,
7911,0,7946,2,
7906,7912,7947,0,
7912,0,7948,2,
7729,7898,7949,1,
7914,0,7950,2,
7917,6300,7951,0,
7918,0,7952,2,
7920,0,7953,2,
6292,7921,7954,1,
7178,7920,7955,1,
7355,7922,7956,1,
5144,7923,7957,0,
7941,7703,7958,0,
7925,0,7959,2,
7924,0,7960,2,
6527,7924,7961,1,
7927,7335,7962,0,
5807,7928,7963,0,
7929,0,7964,2,
7930,0,7965,2,
7764,7932,7966,0,
7931,0,7967,2,
5091,7933,7968,0,
7730,7930,7969,1,
7344,7938,7970,0,
7935,0,7971,2,
7345,7937,7972,0,
7936,0,7973,2,
7801,7934,7974,1,
7933,5091,7975,1,
7939,7673,7976,0,
7347,7945,7977,0,
7944,7639,7978,0,
7947,6001,7979,0,
7949,0,7980,2,
7944,7454,7981,0,
7763,7931,7982,1,
7944,6909,7983,0,
7947,5803,7984,0,
7947,6265,7985,0,
7947,5806,7986,0,
7778,7950,7987,0,
7944,7643,7988,0,
7947,6135,7989,0,
7369,7951,7990,0,
7566,7953,7991,0,
7944,7780,7992,0,
7944,7781,7993,0,
7947,6275,7994,0,
7947,6546,7995,0,
7944,7954,7996,0,
7367,7953,7997,0,
7947,6903,7998,0,
7465,7953,7999,0,
7944,7956,8000,0,
7947,6152,8001,0,
7523,7953,8002,0,
7947,6154,8003,0,
7944,7955,8004,0,
7947,7168,8005,0,
7947,6558,8006,0,
7947,6910,8007,0,
7947,6299,8008,0,
7947,6304,8009,0,
7947,6015,8010,0,
7947,6167,8011,0,
7947,6338,8012,0,
7947,6615,8013,0,
7944,0,8014,2,
7947,6353,8015,0,
7947,7479,8016,0,
7947,6179,8017,0,
7947,6708,8018,0,
7947,0,8019,2,
7947,6395,8020,0,
7947,6037,8021,0,
7947,7027,8022,0,
7944,6436,8023,0,
7957,0,8024,2,
7944,6193,8025,0,
7947,6436,8026,0,
5681,7957,8027,1,
6883,7960,8028,0,
7926,7959,8029,0,
258,7962,8030,1,
764,7961,8031,0,
7963,0,8032,2,
7762,7965,8033,0,
7966,0,8034,2,
7797,7967,8035,0,
7968,0,8036,2,
166,7972,8037,1,
757,7961,8038,0,
7969,0,8039,2,
7974,0,8040,2,
185,7970,8041,1,
762,7961,8042,0,
7975,0,8043,2,
7974,7940,8044,0,
7975,7934,8045,1,
7958,6275,8046,0,
7976,6265,8047,0,
767,7961,8048,0,
7978,0,8049,2,
249,7977,8050,1,
7979,0,8051,2,
7958,6135,8052,0,
7976,5803,8053,0,
7958,6265,8054,0,
7976,5806,8055,0,
7981,0,8056,2,
7983,0,8057,2,
7984,0,8058,2,
7986,0,8059,2,
7985,0,8060,2,
7987,0,8061,2,
7976,6135,8062,0,
7958,6546,8063,0,
7988,0,8064,2,
7916,7987,8065,1,
7989,0,8066,2,
259,7990,8067,1,
1551,7961,8068,0,
7991,0,8069,2,
7976,6275,8070,0,
7958,6903,8071,0,
7992,0,8072,2,
7958,6152,8073,0,
7976,6546,8074,0,
7994,0,8075,2,
7993,0,8076,2,
7995,0,8077,2,
7976,6903,8078,0,
7958,6154,8079,0,
7997,0,8080,2,
7996,0,8081,2,
7998,0,8082,2,
7976,6152,8083,0,
7958,7168,8084,0,
7999,0,8085,2,
8000,0,8086,2,
8001,0,8087,2,
7976,6154,8088,0,
7958,6558,8089,0,
8003,0,8090,2,
8002,0,8091,2,
8004,0,8092,2,
8005,0,8093,2,
8006,0,8094,2,
7958,6910,8095,0,
7976,7168,8096,0,
8007,0,8097,2,
7976,6558,8098,0,
7958,6299,8099,0,
7976,6910,8100,0,
8008,0,8101,2,
7958,6304,8102,0,
7958,6015,8103,0,
7976,6304,8104,0,
7958,6167,8105,0,
7976,6299,8106,0,
8009,0,8107,2,
7976,6167,8108,0,
7958,6615,8109,0,
7958,6338,8110,0,
8011,0,8111,2,
8010,0,8112,2,
7976,6015,8113,0,
7958,0,8114,2,
8012,0,8115,2,
8015,0,8116,2,
8013,0,8117,2,
7976,6615,8118,0,
8016,0,8119,2,
7958,7479,8120,0,
7958,6179,8121,0,
7976,6338,8122,0,
7976,7479,8123,0,
7958,6353,8124,0,
8017,0,8125,2,
7958,6708,8126,0,
7958,6395,8127,0,
7976,6353,8128,0,
7976,6179,8129,0,
8018,0,8130,2,
7958,6037,8131,0,
7976,6395,8132,0,
7976,6708,8133,0,
7958,7027,8134,0,
8020,0,8135,2,
7976,7027,8136,0,
7958,6436,8137,0,
8021,0,8138,2,
7976,6037,8139,0,
8022,0,8140,2,
5681,8024,8141,0,
7976,6436,8142,0,
8026,0,8143,2,
8027,0,8144,2,
8028,0,8145,2,
8029,0,8146,2,
8031,0,8147,2,
7794,8030,8148,0,
5246,8032,8149,0,
8030,0,8150,2,
8033,0,8151,2,
8035,0,8152,2,
7766,8034,8153,0,
8036,5234,8154,0,
8044,0,8155,2,
8037,0,8156,2,
8038,0,8157,2,
8041,0,8158,2,
8040,7940,8159,0,
8042,0,8160,2,
8044,5806,8161,0,
8046,0,8162,2,
8045,0,8163,2,
8047,0,8164,2,
8048,0,8165,2,
7773,8041,8166,0,
7802,8037,8167,0,
8050,7741,8168,1,
8040,7948,8169,0,
8050,7741,8170,0,
8044,6265,8171,0,
8053,0,8172,2,
8055,0,8173,2,
8052,0,8174,2,
8054,0,8175,2,
8044,6135,8176,0,
8044,5803,8177,0,
8063,0,8178,2,
8062,0,8179,2,
7916,8061,8180,0,
8044,6275,8181,0,
8065,0,8182,2,
8067,5834,8183,1,
8068,0,8184,2,
5834,8067,8185,0,
8069,6926,8186,0,
8071,0,8187,2,
8070,0,8188,2,
8044,6546,8189,0,
8073,0,8190,2,
8074,0,8191,2,
8044,6903,8192,0,
8078,0,8193,2,
8079,0,8194,2,
8080,7459,8195,0,
8044,6152,8196,0,
8084,0,8197,2,
8083,0,8198,2,
8044,6154,8199,0,
7522,8085,8200,0,
8044,7168,8201,0,
7679,8091,8202,0,
8044,6558,8203,0,
8089,0,8204,2,
8088,0,8205,2,
8044,6910,8206,0,
8044,6299,8207,0,
8096,0,8208,2,
8095,0,8209,2,
8044,6304,8210,0,
8099,0,8211,2,
8098,0,8212,2,
8102,0,8213,2,
8100,0,8214,2,
8104,0,8215,2,
8103,0,8216,2,
8044,6167,8217,0,
8105,0,8218,2,
8106,0,8219,2,
8044,6615,8220,0,
8044,6015,8221,0,
8108,0,8222,2,
8109,0,8223,2,
8110,0,8224,2,
8113,0,8225,2,
8044,6338,8226,0,
8114,7826,8227,0,
8044,6179,8228,0,
8044,7479,8229,0,
8044,6353,8230,0,
8118,0,8231,2,
8120,0,8232,2,
8044,6708,8233,0,
8122,0,8234,2,
8121,0,8235,2,
8123,0,8236,2,
8124,0,8237,2,
8044,6395,8238,0,
8128,0,8239,2,
8127,0,8240,2,
8129,0,8241,2,
8126,0,8242,2,
8131,0,8243,2,
8132,0,8244,2,
8044,7027,8245,0,
8133,0,8246,2,
8134,0,8247,2,
8044,6436,8248,0,
8137,0,8249,2,
8136,0,8250,2,
8139,0,8251,2,
8044,6037,8252,0,
8141,0,8253,2,
8142,0,8254,2,
8169,7906,8255,0,
7143,8145,8256,0,
7964,8146,8257,0,
8148,0,8258,2,
8147,7145,8259,0,
8150,7850,8260,0,
8149,0,8261,2,
7770,8151,8262,0,
7771,8152,8263,0,
8153,0,8264,2,
8159,0,8265,2,
4909,8154,8266,1,
7773,8158,8267,1,
7802,8156,8268,1,
8157,6148,8269,0,
4447,8149,8270,1,
8159,5999,8271,0,
8161,0,8272,2,
8160,6150,8273,0,
8049,8164,8274,0,
8162,7856,8275,0,
8166,0,8276,2,
8167,0,8277,2,
8165,6156,8278,0,
8159,6909,8279,0,
8170,0,8280,2,
8175,7858,8281,0,
8057,8173,8282,0,
8171,0,8283,2,
8159,7454,8284,0,
8174,7859,8285,0,
8159,6158,8286,0,
8056,8172,8287,0,
8177,0,8288,2,
8176,0,8289,2,
7936,8153,8290,1,
8180,0,8291,2,
8159,7639,8292,0,
8064,8179,8293,0,
8178,7865,8294,0,
8181,0,8295,2,
8184,6166,8296,0,
8186,7782,8297,0,
8185,0,8298,2,
8072,8188,8299,0,
8187,7867,8300,0,
8159,7643,8301,0,
8189,0,8302,2,
8190,7869,8303,0,
8076,8191,8304,0,
8159,7780,8305,0,
8192,0,8306,2,
8081,8193,8307,0,
8194,7870,8308,0,
8159,7781,8309,0,
8196,0,8310,2,
6916,8195,8311,1,
8159,7954,8312,0,
8086,8198,8313,0,
8197,7871,8314,0,
8199,0,8315,2,
7177,8200,8316,1,
8159,7956,8317,0,
8201,0,8318,2,
8159,7955,8319,0,
8204,7872,8320,0,
8092,8205,8321,0,
8203,0,8322,2,
8206,0,8323,2,
6571,8202,8324,1,
8207,0,8325,2,
8209,7873,8326,0,
8210,0,8327,2,
8211,7874,8328,0,
8213,7875,8329,0,
8216,7876,8330,0,
8217,0,8331,2,
8218,7877,8332,0,
8221,0,8333,2,
8220,0,8334,2,
8223,7878,8335,0,
8224,7879,8336,0,
8227,8014,8337,0,
8229,0,8338,2,
8228,0,8339,2,
8226,0,8340,2,
8230,0,8341,2,
8232,7880,8342,0,
8233,0,8343,2,
8235,7881,8344,0,
8237,7882,8345,0,
8238,0,8346,2,
8242,7884,8347,0,
8240,7883,8348,0,
7885,8243,8349,0,
8245,0,8350,2,
8247,7887,8351,0,
7888,8249,8352,0,
8248,0,8353,2,
8251,8114,8354,0,
8252,0,8355,2,
6043,8253,8356,0,
8155,8019,8357,0,
8256,0,8358,2,
8257,0,8359,2,
8259,6892,8360,0,
7144,8256,8361,1,
8260,0,8362,2,
4447,8261,8363,0,
4706,8261,8364,0,
8262,0,8365,2,
7973,8264,8366,0,
8270,0,8367,2,
8263,0,8368,2,
8265,8155,8369,0,
8266,8043,8370,1,
8262,7935,8371,1,
7348,8269,8372,0,
8268,0,8373,2,
8271,0,8374,2,
8267,0,8375,2,
7350,8273,8376,0,
8275,8274,8377,0,
8255,5806,8378,0,
7359,8278,8379,0,
8255,5803,8380,0,
8279,0,8381,2,
8255,6001,8382,0,
8283,8058,8383,0,
8285,8287,8384,0,
8286,0,8385,2,
8281,8282,8386,0,
8284,0,8387,2,
8289,8060,8388,0,
7909,8263,8389,1,
8288,8059,8390,0,
8255,6265,8391,0,
8294,8293,8392,0,
8292,0,8393,2,
7952,8291,8394,0,
8295,8066,8395,0,
7376,8296,8396,0,
8297,0,8397,2,
8300,8299,8398,0,
8255,6135,8399,0,
8301,0,8400,2,
8255,6275,8401,0,
8302,8075,8402,0,
8303,8304,8403,0,
8305,0,8404,2,
8306,8077,8405,0,
8255,6546,8406,0,
8308,8307,8407,0,
8309,0,8408,2,
8310,8082,8409,0,
8255,6903,8410,0,
8312,0,8411,2,
8255,6152,8412,0,
8314,8313,8413,0,
8317,0,8414,2,
8315,8087,8415,0,
8318,8090,8416,0,
8255,7168,8417,0,
8255,6154,8418,0,
8159,8311,8419,0,
8319,0,8420,2,
8323,8094,8421,0,
8320,8321,8422,0,
8322,8093,8423,0,
7944,8311,8424,0,
8255,6558,8425,0,
8159,8316,8426,0,
8255,6910,8427,0,
8159,8324,8428,0,
8325,8097,8429,0,
7944,8316,8430,0,
7944,8324,8431,0,
8327,8101,8432,0,
8255,6299,8433,0,
8331,8107,8434,0,
8255,6167,8435,0,
8255,6304,8436,0,
8334,8112,8437,0,
8333,8111,8438,0,
8255,6015,8439,0,
8255,6615,8440,0,
8255,7479,8441,0,
8255,6338,8442,0,
8339,8116,8443,0,
8337,0,8444,2,
8340,8117,8445,0,
8338,8115,8446,0,
8341,8119,8447,0,
8255,6353,8448,0,
8343,8125,8449,0,
8255,6179,8450,0,
8346,8130,8451,0,
8255,0,8452,2,
8255,6708,8453,0,
8255,7027,8454,0,
8350,8135,8455,0,
8138,8353,8456,0,
8255,6395,8457,0,
8140,8355,8458,0,
8354,7889,8459,0,
8255,6037,8460,0,
8356,0,8461,2,
8255,6436,8462,0,
8356,4983,8463,1,
8258,8359,8464,0,
7341,8358,8465,0,
764,8361,8466,0,
258,8360,8467,1,
8364,0,8468,2,
8363,0,8469,2,
7971,8365,8470,0,
8366,0,8471,2,
7909,8368,8472,0,
8266,8367,8473,1,
8369,0,8474,2,
8370,0,8475,2,
762,8361,8476,0,
8371,0,8477,2,
166,8372,8478,1,
8272,8374,8479,0,
185,8376,8480,1,
7807,8377,8481,1,
757,8361,8482,0,
8378,0,8483,2,
767,8361,8484,0,
249,8379,8485,1,
8382,0,8486,2,
8380,0,8487,2,
7807,8384,8488,1,
7807,8386,8489,1,
8389,0,8490,2,
8391,0,8491,2,
8394,0,8492,2,
7807,8392,8493,1,
8183,8394,8494,1,
259,8396,8495,1,
1551,8361,8496,0,
8397,6313,8497,0,
7807,8398,8498,1,
8399,0,8499,2,
8401,0,8500,2,
7807,8403,8501,1,
8406,0,8502,2,
7807,8407,8503,1,
8410,0,8504,2,
8412,0,8505,2,
7807,8413,8506,1,
8418,0,8507,2,
8419,0,8508,2,
8417,0,8509,2,
8397,6313,8510,1,
7807,8422,8511,1,
8425,0,8512,2,
8426,0,8513,2,
8424,0,8514,2,
8428,0,8515,2,
8427,0,8516,2,
8430,0,8517,2,
8431,0,8518,2,
8433,0,8519,2,
8436,0,8520,2,
8435,0,8521,2,
8440,0,8522,2,
8441,0,8523,2,
8439,0,8524,2,
8442,0,8525,2,
7851,8444,8526,0,
8448,0,8527,2,
8450,0,8528,2,
8369,8019,8529,0,
8453,0,8530,2,
8454,0,8531,2,
8457,0,8532,2,
8460,0,8533,2,
8461,4983,8534,0,
8462,0,8535,2,
8463,0,8536,2,
8465,0,8537,2,
8464,0,8538,2,
8466,0,8539,2,
8467,7969,8540,0,
8469,4926,8541,0,
5099,8468,8542,0,
8467,0,8543,2,
8470,0,8544,2,
8473,0,8545,2,
7942,8471,8546,0,
8472,0,8547,2,
8474,6001,8548,0,
8473,8045,8549,0,
8475,8163,8550,0,
8473,8163,8551,0,
8476,0,8552,2,
8479,8051,8553,0,
8478,0,8554,2,
8480,7980,8555,1,
8482,0,8556,2,
8481,0,8557,2,
8484,0,8558,2,
8381,8483,8559,0,
8485,7915,8560,1,
8480,7949,8561,0,
7982,8478,8562,0,
8387,8487,8563,0,
8485,7915,8564,0,
8385,8486,8565,0,
8488,0,8566,2,
8489,0,8567,2,
8393,8491,8568,0,
8183,8492,8569,0,
8493,0,8570,2,
8494,0,8571,2,
8495,6168,8572,1,
8496,0,8573,2,
6168,8495,8574,0,
8497,0,8575,2,
8498,0,8576,2,
8400,8499,8577,0,
8404,8500,8578,0,
8501,0,8579,2,
8408,8502,8580,0,
8503,0,8581,2,
8411,8504,8582,0,
8506,0,8583,2,
8414,8505,8584,0,
8508,8509,8585,0,
8420,8507,8586,0,
8511,0,8587,2,
8513,8512,8588,0,
8514,8208,8589,0,
8515,8516,8590,0,
8517,8212,8591,0,
8518,8214,8592,0,
8159,8510,8593,0,
7944,8510,8594,0,
8526,0,8595,2,
8529,8452,8596,0,
8533,8143,8597,0,
8534,0,8598,2,
7343,8537,8599,0,
8362,8538,8600,0,
8539,6544,8601,0,
8540,0,8602,2,
8543,8039,8603,0,
8542,0,8604,2,
1947,8541,8605,1,
7943,8544,8606,0,
8542,358,8607,0,
8546,0,8608,2,
7946,8547,8609,0,
8549,0,8610,2,
8545,8045,8611,0,
8549,5999,8612,0,
7913,8548,8613,1,
8551,8370,8614,0,
8550,6001,8615,0,
7913,8553,8616,1,
7982,8554,8617,1,
8550,5806,8618,0,
8549,6158,8619,0,
8552,7172,8620,0,
8555,0,8621,2,
8550,5803,8622,0,
8549,6909,8623,0,
8556,7175,8624,0,
8562,0,8625,2,
8550,6265,8626,0,
8383,8559,8627,0,
8549,7639,8628,0,
8550,6135,8629,0,
8558,7180,8630,0,
8561,0,8631,2,
8549,7454,8632,0,
8390,8565,8633,0,
8388,8563,8634,0,
8564,0,8635,2,
7919,8567,8636,0,
8550,6275,8637,0,
8549,7643,8638,0,
8268,8546,8639,1,
8395,8568,8640,0,
8569,0,8641,2,
8549,7780,8642,0,
8550,6546,8643,0,
8573,7201,8644,0,
8574,0,8645,2,
6933,8575,8646,0,
8402,8577,8647,0,
8550,6903,8648,0,
8549,7781,8649,0,
8405,8578,8650,0,
8550,6152,8651,0,
8549,7954,8652,0,
8409,8580,8653,0,
8549,8311,8654,0,
8550,6558,8655,0,
8549,7955,8656,0,
8550,7168,8657,0,
8550,6154,8658,0,
8549,7956,8659,0,
8415,8582,8660,0,
8550,6910,8661,0,
8416,8584,8662,0,
8549,8316,8663,0,
8549,8324,8664,0,
8550,6299,8665,0,
8550,6167,8666,0,
8550,6304,8667,0,
8549,8510,8668,0,
8421,8585,8669,0,
8423,8586,8670,0,
8326,8589,8671,0,
8550,6015,8672,0,
8429,8588,8673,0,
8328,8591,8674,0,
8432,8590,8675,0,
8329,8592,8676,0,
8594,0,8677,2,
8550,6615,8678,0,
8593,0,8679,2,
8550,6338,8680,0,
8550,7479,8681,0,
8550,6353,8682,0,
8550,6179,8683,0,
8550,6708,8684,0,
7913,8596,8685,1,
8550,6395,8686,0,
8550,7027,8687,0,
8550,0,8688,2,
8550,6037,8689,0,
5298,8598,8690,0,
8550,6436,8691,0,
8599,0,8692,2,
8600,0,8693,2,
6897,8599,8694,1,
8601,7453,8695,0,
8603,0,8696,2,
8604,357,8697,1,
8605,0,8698,2,
8611,0,8699,2,
8606,0,8700,2,
8373,8608,8701,0,
8609,0,8702,2,
8611,5806,8703,0,
8612,0,8704,2,
8613,0,8705,2,
8615,0,8706,2,
8611,5803,8707,0,
8614,6001,8708,0,
8606,8267,8709,1,
8617,0,8710,2,
8611,6265,8711,0,
7460,8620,8712,0,
8619,0,8713,2,
8618,0,8714,2,
8614,5806,8715,0,
8607,0,8716,2,
8623,0,8717,2,
8622,0,8718,2,
8611,6275,8719,0,
7462,8624,8720,0,
8611,6135,8721,0,
8614,6265,8722,0,
8614,5803,8723,0,
8632,0,8724,2,
8626,0,8725,2,
7913,8627,8726,1,
8629,0,8727,2,
8628,0,8728,2,
7464,8630,8729,0,
7913,8634,8730,1,
7913,8633,8731,1,
8611,6546,8732,0,
8636,0,8733,2,
8614,6135,8734,0,
8168,8609,8735,1,
8638,0,8736,2,
8637,0,8737,2,
7913,8640,8738,1,
8298,8641,8739,0,
8614,6275,8740,0,
8611,6903,8741,0,
8643,0,8742,2,
8642,0,8743,2,
7471,8644,8744,0,
8646,0,8745,2,
8614,6546,8746,0,
8611,6152,8747,0,
7913,8647,8748,1,
8648,0,8749,2,
8649,0,8750,2,
7913,8650,8751,1,
8614,6903,8752,0,
8611,6154,8753,0,
8652,0,8754,2,
8651,0,8755,2,
7913,8653,8756,1,
8611,6910,8757,0,
8614,7168,8758,0,
8655,0,8759,2,
8654,0,8760,2,
8614,6154,8761,0,
8611,7168,8762,0,
8611,6558,8763,0,
8614,6152,8764,0,
8657,0,8765,2,
8658,0,8766,2,
8656,0,8767,2,
8659,0,8768,2,
8611,6299,8769,0,
7913,8660,8770,1,
8614,6558,8771,0,
8614,6910,8772,0,
8663,0,8773,2,
8611,6304,8774,0,
8611,6015,8775,0,
7913,8662,8776,1,
8614,6304,8777,0,
8661,0,8778,2,
8665,0,8779,2,
8611,6167,8780,0,
8614,6299,8781,0,
8666,0,8782,2,
8664,0,8783,2,
7913,8670,8784,1,
7913,8669,8785,1,
8667,0,8786,2,
8668,0,8787,2,
8611,6615,8788,0,
8614,6167,8789,0,
8672,0,8790,2,
7807,8671,8791,1,
7913,8673,8792,1,
7913,8675,8793,1,
7807,8674,8794,1,
7807,8676,8795,1,
8614,6015,8796,0,
8611,6338,8797,0,
8679,8519,8798,0,
8678,0,8799,2,
8677,8219,8800,0,
8611,7479,8801,0,
8614,6615,8802,0,
8680,0,8803,2,
8614,6338,8804,0,
8611,6353,8805,0,
8681,0,8806,2,
8614,7479,8807,0,
8611,6179,8808,0,
8682,0,8809,2,
8614,6353,8810,0,
8611,6708,8811,0,
8683,0,8812,2,
8611,6395,8813,0,
8614,6179,8814,0,
8684,0,8815,2,
8685,0,8816,2,
8611,7027,8817,0,
8614,6708,8818,0,
8686,0,8819,2,
8611,6037,8820,0,
8614,6395,8821,0,
8687,0,8822,2,
8614,0,8823,2,
8611,6436,8824,0,
8614,7027,8825,0,
8689,0,8826,2,
8614,6037,8827,0,
8690,0,8828,2,
8691,0,8829,2,
8614,6436,8830,0,
7088,8607,8831,1,
8607,7088,8832,0,
5299,8690,8833,1,
6338,8716,8834,0,
8602,8693,8835,0,
7154,8692,8836,0,
764,8694,8837,0,
258,8695,8838,1,
8270,8698,8839,1,
8697,8607,8840,1,
8375,8700,8841,0,
8610,8699,8842,0,
8703,0,8843,2,
8701,0,8844,2,
8168,8702,8845,0,
8697,8698,8846,1,
8705,7934,8847,0,
8708,0,8848,2,
8707,0,8849,2,
185,8712,8850,1,
762,8694,8851,0,
8709,0,8852,2,
8715,0,8853,2,
8711,0,8854,2,
8723,0,8855,2,
8719,0,8856,2,
757,8694,8857,0,
166,8720,8858,1,
8722,0,8859,2,
8721,0,8860,2,
767,8694,8861,0,
7934,8705,8862,1,
249,8729,8863,1,
8731,0,8864,2,
8730,0,8865,2,
8734,0,8866,2,
8732,0,8867,2,
6001,8716,8868,0,
8735,0,8869,2,
5803,8716,8870,0,
8738,0,8871,2,
5806,8716,8872,0,
6265,8716,8873,0,
8739,0,8874,2,
6275,8716,8875,0,
6135,8716,8876,0,
8741,0,8877,2,
8740,0,8878,2,
8572,8739,8879,1,
259,8744,8880,1,
1551,8694,8881,0,
8745,6170,8882,0,
6546,8716,8883,0,
8747,0,8884,2,
8746,0,8885,2,
6152,8716,8886,0,
6903,8716,8887,0,
8751,0,8888,2,
8753,0,8889,2,
8752,0,8890,2,
8758,0,8891,2,
8756,0,8892,2,
8757,0,8893,2,
8762,0,8894,2,
6154,8716,8895,0,
8763,0,8896,2,
8761,0,8897,2,
8764,0,8898,2,
8745,6170,8899,1,
8771,0,8900,2,
8770,0,8901,2,
8769,0,8902,2,
8777,0,8903,2,
8775,0,8904,2,
8772,0,8905,2,
8774,0,8906,2,
8776,0,8907,2,
7168,8716,8908,0,
8780,0,8909,2,
8781,0,8910,2,
8788,0,8911,2,
8789,0,8912,2,
6558,8716,8913,0,
8792,0,8914,2,
8791,0,8915,2,
8794,0,8916,2,
8795,0,8917,2,
6910,8716,8918,0,
8797,0,8919,2,
8796,0,8920,2,
8434,8798,8921,0,
8332,8800,8922,0,
6299,8716,8923,0,
8802,0,8924,2,
8801,0,8925,2,
6015,8716,8926,0,
6304,8716,8927,0,
8805,0,8928,2,
8804,0,8929,2,
6615,8716,8930,0,
6167,8716,8931,0,
8807,0,8932,2,
8808,0,8933,2,
8810,0,8934,2,
8811,0,8935,2,
6353,8716,8936,0,
7479,8716,8937,0,
8813,0,8938,2,
8814,0,8939,2,
6179,8716,8940,0,
8818,0,8941,2,
8817,0,8942,2,
6708,8716,8943,0,
8821,0,8944,2,
8820,0,8945,2,
7420,8716,8946,0,
6395,8716,8947,0,
7027,8716,8948,0,
8824,0,8949,2,
8825,0,8950,2,
8827,0,8951,2,
6037,8716,8952,0,
5483,8828,8953,0,
6436,8716,8954,0,
8716,6831,8955,0,
8830,0,8956,2,
8699,8688,8957,0,
8832,0,8958,2,
8833,0,8959,2,
8835,0,8960,2,
8836,0,8961,2,
8371,8838,8962,0,
8837,0,8963,2,
8838,0,8964,2,
8840,0,8965,2,
8839,0,8966,2,
8841,0,8967,2,
8842,0,8968,2,
8846,8839,8969,0,
8845,0,8970,2,
8704,8843,8971,0,
8277,8844,8972,0,
8847,8616,8973,0,
8713,8848,8974,0,
8849,8714,8975,0,
8851,0,8976,2,
8846,0,8977,2,
8854,8718,8978,0,
8717,8853,8979,0,
8850,0,8980,2,
8616,8847,8981,1,
8858,8490,8982,1,
8856,8727,8983,0,
8724,8855,8984,0,
8728,8859,8985,0,
8857,0,8986,2,
8860,8725,8987,0,
8290,8850,8988,0,
8861,0,8989,2,
8858,8490,8990,0,
8863,8182,8991,1,
8862,8567,8992,0,
8863,8182,8993,0,
8736,8866,8994,0,
8868,0,8995,2,
8867,8737,8996,0,
8572,8874,8997,0,
8743,8878,8998,0,
8877,8742,8999,0,
8879,0,9000,2,
8881,0,9001,2,
8880,6016,9002,1,
8882,0,9003,2,
6016,8880,9004,0,
8884,8749,9005,0,
8750,8885,9006,0,
8889,8755,9007,0,
8754,8890,9008,0,
8760,8891,9009,0,
8893,8759,9010,0,
8894,8766,9011,0,
8768,8898,9012,0,
8896,8765,9013,0,
8767,8897,9014,0,
8549,8899,9015,0,
8902,8778,9016,0,
8773,8900,9017,0,
8783,8905,9018,0,
8906,8779,9019,0,
8904,8782,9020,0,
8909,8786,9021,0,
8787,8910,9022,0,
8911,8790,9023,0,
7944,8899,9024,0,
8159,8899,9025,0,
8919,8799,9026,0,
7807,8922,9027,1,
7913,8921,9028,1,
8926,0,9029,2,
8925,8803,9030,0,
8926,6398,9031,0,
6036,8930,9032,1,
8928,8806,9033,0,
8930,0,9034,2,
5901,8834,9035,1,
8933,8809,9036,0,
8834,0,9037,2,
8935,8812,9038,0,
6040,8937,9039,1,
8936,0,9040,2,
8937,0,9041,2,
8938,8815,9042,0,
8940,0,9043,2,
8936,6455,9044,0,
8942,8819,9045,0,
8943,7077,9046,0,
8946,6395,9047,0,
8822,8945,9048,0,
8842,8688,9049,0,
6808,8940,9050,0,
7292,8947,9051,1,
7077,8943,9052,1,
8948,5869,9053,1,
8948,5869,9054,0,
8826,8949,9055,0,
6045,8952,9056,1,
8952,6045,9057,0,
8951,8829,9058,0,
8953,0,9059,2,
8955,6436,9060,0,
6468,8954,9061,1,
8840,8966,9062,0,
8696,8960,9063,0,
7349,8961,9064,0,
8963,7351,9065,0,
8962,0,9066,2,
8964,8477,9067,0,
8965,8966,9068,0,
8968,6001,9069,0,
8276,8967,9070,0,
8280,8970,9071,0,
8972,0,9072,2,
8969,6001,9073,0,
8971,8706,9074,0,
8966,6001,9075,0,
8973,8557,9076,0,
8975,8974,9077,0,
8965,8977,9078,0,
8290,8980,9079,1,
8978,8979,9080,0,
8976,6570,9081,0,
8981,8566,9082,0,
8969,6265,9083,0,
8969,6275,9084,0,
8481,8973,9085,1,
8983,8985,9086,0,
8969,5803,9087,0,
8969,6135,9088,0,
8987,8984,9089,0,
8986,6576,9090,0,
8981,0,9091,2,
8969,5806,9092,0,
8988,0,9093,2,
8990,0,9094,2,
8969,6903,9095,0,
8992,0,9096,2,
8969,6546,9097,0,
8989,6578,9098,0,
8993,0,9099,2,
8996,8994,9100,0,
8969,6152,9101,0,
8617,8972,9102,1,
8997,0,9103,2,
8999,8998,9104,0,
8969,6154,9105,0,
8969,7168,9106,0,
9001,6604,9107,0,
9004,0,9108,2,
6609,9003,9109,0,
9005,9006,9110,0,
8969,6558,9111,0,
9007,9008,9112,0,
8969,6910,9113,0,
9010,9009,9114,0,
9013,9014,9115,0,
9011,9012,9116,0,
9015,0,9117,2,
8969,6299,9118,0,
9016,9017,9119,0,
9019,9018,9120,0,
9021,9022,9121,0,
8969,6304,9122,0,
9024,0,9123,2,
8969,6167,9124,0,
9025,0,9125,2,
8969,6338,9126,0,
8969,6015,9127,0,
9027,0,9128,2,
9029,6186,9129,1,
8969,6615,9130,0,
9031,0,9131,2,
9032,8526,9132,1,
9032,8595,9133,0,
6036,9034,9134,0,
5901,9037,9135,0,
8969,7479,9136,0,
8969,6708,9137,0,
6040,9041,9138,0,
9040,6194,9139,1,
8969,6353,9140,0,
8969,6179,9141,0,
9043,6808,9142,1,
9047,0,9143,2,
9049,8823,9144,0,
9046,0,9145,2,
9050,0,9146,2,
8969,6395,9147,0,
8969,6436,9148,0,
9051,0,9149,2,
8969,7027,9150,0,
8969,0,9151,2,
8969,6037,9152,0,
9054,0,9153,2,
9057,0,9154,2,
5484,9059,9155,0,
9060,0,9156,2,
9061,0,9157,2,
9063,0,9158,2,
9064,0,9159,2,
9065,7166,9160,0,
6287,9064,9161,1,
9068,5999,9162,0,
9062,5806,9163,0,
9067,0,9164,2,
8270,9069,9165,1,
9070,0,9166,2,
9073,0,9167,2,
9071,0,9168,2,
8270,9074,9169,1,
8710,9072,9170,0,
8716,9075,9171,1,
8270,9077,9172,1,
8555,9070,9173,1,
8270,9080,9174,1,
9078,8839,9175,0,
9079,0,9176,2,
7466,9081,9177,0,
9068,7454,9178,0,
9062,6135,9179,0,
9062,6546,9180,0,
9062,6265,9181,0,
9068,7643,9182,0,
9082,0,9183,2,
9068,7639,9184,0,
9068,6909,9185,0,
9062,6275,9186,0,
9088,0,9187,2,
7468,9090,9188,0,
9084,0,9189,2,
9068,6158,9190,0,
9062,5803,9191,0,
9087,0,9192,2,
9083,0,9193,2,
9091,8488,9194,0,
9068,7781,9195,0,
9062,6903,9196,0,
9085,8864,9197,0,
8270,9089,9198,1,
9062,6152,9199,0,
8270,9086,9200,1,
9068,7780,9201,0,
9095,0,9202,2,
9097,0,9203,2,
9092,0,9204,2,
9085,0,9205,2,
7469,9098,9206,0,
8270,9100,9207,1,
9062,6154,9208,0,
9068,7954,9209,0,
8560,9071,9210,1,
9101,0,9211,2,
8645,9103,9212,0,
9062,7168,9213,0,
8270,9104,9214,1,
9068,7956,9215,0,
9068,7955,9216,0,
9062,6558,9217,0,
9106,0,9218,2,
9105,0,9219,2,
7475,9107,9220,0,
9109,0,9221,2,
8270,9110,9222,1,
9068,8311,9223,0,
9062,6910,9224,0,
9111,0,9225,2,
8270,9112,9226,1,
9068,8316,9227,0,
9062,6299,9228,0,
9113,0,9229,2,
8270,9114,9230,1,
8270,9115,9231,1,
8270,9116,9232,1,
9062,6304,9233,0,
9068,8324,9234,0,
9117,8903,9235,0,
9118,0,9236,2,
8270,9119,9237,1,
8270,9120,9238,1,
9062,6167,9239,0,
9068,8510,9240,0,
8270,9121,9241,1,
9122,0,9242,2,
9062,6015,9243,0,
9068,8899,9244,0,
9123,8215,9245,0,
9124,0,9246,2,
9062,7479,9247,0,
9126,0,9248,2,
9062,6615,9249,0,
9125,8520,9250,0,
9127,0,9251,2,
9062,6338,9252,0,
9130,0,9253,2,
9132,0,9254,2,
9133,0,9255,2,
9035,9134,9256,1,
9134,0,9257,2,
9062,6353,9258,0,
9136,0,9259,2,
9039,9135,9260,1,
9062,6395,9261,0,
9135,0,9262,2,
9137,0,9263,2,
9139,9138,9264,1,
9062,6179,9265,0,
9140,0,9266,2,
9138,0,9267,2,
9062,6708,9268,0,
9141,0,9269,2,
9142,9044,9270,1,
9142,0,9271,2,
7297,9145,9272,0,
8270,9144,9273,1,
9062,7027,9274,0,
7421,9143,9275,0,
9147,0,9276,2,
9148,0,9277,2,
9062,0,9278,2,
9062,6037,9279,0,
9062,6436,9280,0,
9150,0,9281,2,
9152,0,9282,2,
9151,8839,9283,0,
6199,9154,9284,0,
9155,0,9285,2,
6833,9156,9286,0,
5872,9155,9287,1,
9061,9284,9288,1,
9066,9158,9289,0,
6559,9159,9290,0,
258,9160,9291,1,
764,9161,9292,0,
9163,0,9293,2,
9162,0,9294,2,
8621,9166,9295,0,
9165,8367,9296,1,
8560,9168,9297,0,
9169,8367,9298,0,
9165,0,9299,2,
9170,0,9300,2,
9171,8607,9301,1,
185,9177,9302,1,
9175,5803,9303,0,
9175,6135,9304,0,
9175,5806,9305,0,
9175,6265,9306,0,
9173,0,9307,2,
762,9161,9308,0,
9186,0,9309,2,
9178,0,9310,2,
9181,0,9311,2,
9180,0,9312,2,
9175,6001,9313,0,
9185,0,9314,2,
9182,0,9315,2,
9184,0,9316,2,
9179,0,9317,2,
9171,8716,9318,0,
9175,6546,9319,0,
9175,6275,9320,0,
9183,8733,9321,0,
9201,0,9322,2,
9194,0,9323,2,
9199,0,9324,2,
9195,0,9325,2,
166,9188,9326,1,
9191,0,9327,2,
9197,0,9328,2,
9196,0,9329,2,
9198,0,9330,2,
9190,0,9331,2,
757,9161,9332,0,
249,9206,9333,1,
767,9161,9334,0,
9205,8731,9335,0,
9207,0,9336,2,
9175,6903,9337,0,
9209,0,9338,2,
9208,0,9339,2,
9210,0,9340,2,
9212,0,9341,2,
9175,6152,9342,0,
9175,6154,9343,0,
9216,0,9344,2,
9217,0,9345,2,
9002,9212,9346,1,
9215,0,9347,2,
9213,0,9348,2,
259,9220,9349,1,
1551,9161,9350,0,
9221,6614,9351,0,
9175,7168,9352,0,
9223,0,9353,2,
9224,0,9354,2,
9175,6558,9355,0,
9228,0,9356,2,
9227,0,9357,2,
9175,6910,9358,0,
9234,0,9359,2,
9233,0,9360,2,
9020,9235,9361,0,
9221,6614,9362,1,
9175,6299,9363,0,
9239,0,9364,2,
9240,0,9365,2,
9175,6304,9366,0,
8330,9245,9367,0,
9244,0,9368,2,
9243,0,9369,2,
9175,6615,9370,0,
9247,0,9371,2,
9175,6167,9372,0,
8438,9250,9373,0,
9249,0,9374,2,
9175,6015,9375,0,
9252,0,9376,2,
9256,0,9377,2,
9035,9257,9378,0,
9175,6338,9379,0,
9258,0,9380,2,
9175,6179,9381,0,
9260,0,9382,2,
9261,0,9383,2,
9039,9262,9384,0,
9175,7479,9385,0,
9265,0,9386,2,
9264,8816,9387,1,
9264,0,9388,2,
9175,6353,9389,0,
9139,9267,9390,0,
9268,0,9391,2,
9044,9271,9392,0,
9270,0,9393,2,
9175,6708,9394,0,
9274,0,9395,2,
9275,0,9396,2,
9175,6037,9397,0,
9051,9272,9398,1,
9272,0,9399,2,
9273,0,9400,2,
9175,6436,9401,0,
9175,6395,9402,0,
9175,7027,9403,0,
9279,0,9404,2,
9280,0,9405,2,
9278,9151,9406,0,
9175,0,9407,2,
9284,0,9408,2,
5872,9285,9409,0,
9286,0,9410,2,
8831,9286,9411,1,
9287,0,9412,2,
9290,0,9413,2,
9289,0,9414,2,
9292,0,9415,2,
8709,9291,9416,0,
9294,9293,9417,0,
9291,0,9418,2,
9296,9076,9419,1,
9295,0,9420,2,
9298,9299,9421,0,
9297,0,9422,2,
9296,0,9423,2,
8625,9300,9424,0,
9301,0,9425,2,
9299,8367,9426,0,
9305,0,9427,2,
9303,0,9428,2,
9308,0,9429,2,
9302,0,9430,2,
9304,0,9431,2,
9306,0,9432,2,
9192,9311,9433,0,
9321,9096,9434,0,
9309,9187,9435,0,
9320,0,9436,2,
9313,0,9437,2,
9312,9189,9438,0,
9319,0,9439,2,
9317,9193,9440,0,
9332,0,9441,2,
9329,9203,9442,0,
9324,9202,9443,0,
9204,9327,9444,0,
9323,9328,9445,0,
9326,8869,9446,1,
9326,8869,9447,0,
9333,8571,9448,1,
9334,0,9449,2,
8639,9302,9450,0,
9335,0,9451,2,
9333,8571,9452,0,
9337,0,9453,2,
9339,9211,9454,0,
9002,9341,9455,0,
9343,0,9456,2,
9342,0,9457,2,
9348,9219,9458,0,
9345,9218,9459,0,
9346,0,9460,2,
9350,0,9461,2,
9349,6945,9462,1,
9351,0,9463,2,
6945,9349,9464,0,
9352,0,9465,2,
9354,9225,9466,0,
9355,0,9467,2,
9356,9229,9468,0,
9358,0,9469,2,
9360,9236,9470,0,
8270,9361,9471,1,
8549,9362,9472,0,
9363,0,9473,2,
9364,9242,9474,0,
9366,0,9475,2,
8159,9362,9476,0,
7944,9362,9477,0,
7807,9367,9478,1,
9369,9246,9479,0,
9370,0,9480,2,
9068,9362,9481,0,
9372,0,9482,2,
9248,9371,9483,0,
9374,9251,9484,0,
7913,9373,9485,1,
9375,0,9486,2,
9376,9253,9487,0,
9378,0,9488,2,
9379,0,9489,2,
9380,9259,9490,0,
9381,0,9491,2,
9263,9383,9492,0,
9384,0,9493,2,
9385,0,9494,2,
9387,0,9495,2,
9266,9386,9496,0,
9388,8816,9497,0,
9389,0,9498,2,
9390,0,9499,2,
9391,9269,9500,0,
9392,0,9501,2,
9394,0,9502,2,
9397,0,9503,2,
9396,9053,9504,0,
9276,9395,9505,0,
9149,9399,9506,0,
9401,0,9507,2,
9398,9400,9508,0,
9403,0,9509,2,
9402,0,9510,2,
9282,9405,9511,0,
9396,9053,9512,1,
9404,9281,9513,0,
9398,9400,9514,1,
9283,9407,9515,0,
9157,9408,9516,0,
9409,0,9517,2,
8831,9410,9518,0,
9411,0,9519,2,
9421,9172,9520,1,
8716,9515,9521,1,
9164,9414,9522,0,
6911,9413,9523,0,
9416,0,9524,2,
9415,6914,9525,0,
9418,8852,9526,0,
9417,9167,9527,0,
8631,9420,9528,0,
9419,0,9529,2,
9076,9423,9530,0,
8635,9422,9531,0,
9424,0,9532,2,
9421,9172,9533,0,
9169,9426,9534,1,
9316,9432,9535,0,
9315,9431,9536,0,
9310,9428,9537,0,
9429,7375,9538,0,
9427,9314,9539,0,
8639,9430,9540,1,
9437,9331,9541,0,
9322,9436,9542,0,
9325,9439,9543,0,
9434,0,9544,2,
9441,7378,9545,0,
9450,0,9546,2,
8982,9424,9547,1,
9447,0,9548,2,
9449,7381,9549,0,
9452,0,9550,2,
9338,9453,9551,0,
9344,9456,9552,0,
9455,0,9553,2,
9347,9457,9554,0,
9461,7391,9555,0,
9464,0,9556,2,
7215,9463,9557,0,
9353,9465,9558,0,
9357,9467,9559,0,
9359,9469,9560,0,
9472,0,9561,2,
9365,9473,9562,0,
9368,9475,9563,0,
9477,0,9564,2,
9476,0,9565,2,
9478,0,9566,2,
9481,0,9567,2,
9497,0,9568,2,
9146,9501,9569,0,
9506,0,9570,2,
9503,9277,9571,0,
9508,0,9572,2,
9504,0,9573,2,
9514,0,9574,2,
9516,0,9575,2,
6201,9517,9576,0,
9518,0,9577,2,
9520,8871,9578,1,
9523,0,9579,2,
9522,0,9580,2,
9525,7461,9581,0,
7179,9523,9582,1,
8716,9527,9583,1,
9533,9301,9584,1,
9526,0,9585,2,
8726,9529,9586,0,
9528,0,9587,2,
9533,9425,9588,0,
8982,9532,9589,0,
9530,0,9590,2,
9531,0,9591,2,
9534,8865,9592,1,
9528,9079,9593,1,
8726,9529,9594,1,
9540,0,9595,2,
7194,9538,9596,0,
9433,9539,9597,0,
9435,9535,9598,0,
9438,9536,9599,0,
9440,9537,9600,0,
9534,8730,9601,0,
9443,9543,9602,0,
9442,9542,9603,0,
9445,9544,9604,0,
9444,9541,9605,0,
7199,9545,9606,0,
9547,0,9607,2,
7200,9549,9608,0,
9520,8738,9609,0,
9454,9551,9610,0,
8991,9531,9611,1,
9458,9554,9612,0,
9108,9553,9613,0,
9459,9552,9614,0,
7213,9555,9615,0,
9557,0,9616,2,
9466,9558,9617,0,
9468,9559,9618,0,
9470,9560,9619,0,
9561,8912,9620,0,
9474,9562,9621,0,
9479,9563,9622,0,
9564,8222,9623,0,
9565,8521,9624,0,
9567,9482,9625,0,
9499,9568,9626,0,
9052,9569,9627,1,
9569,0,9628,2,
9570,9572,9629,0,
9153,9573,9630,0,
9521,9288,9631,0,
9521,9288,9632,1,
9576,0,9633,2,
8958,9577,9634,0,
6052,9576,9635,1,
7365,9579,9636,0,
9524,9580,9637,0,
764,9582,9638,0,
258,9581,9639,1,
9583,0,9640,2,
9584,0,9641,2,
9176,9587,9642,0,
9586,0,9643,2,
9588,0,9644,2,
9589,0,9645,2,
8991,9591,9646,0,
762,9582,9647,0,
9583,9318,9648,1,
9592,0,9649,2,
9594,8570,9650,0,
9593,0,9651,2,
185,9596,9652,1,
9601,0,9653,2,
8607,9597,9654,1,
8716,9599,9655,1,
8716,9600,9656,1,
8716,9598,9657,1,
8607,9605,9658,1,
8716,9603,9659,1,
9594,0,9660,2,
9604,0,9661,2,
8716,9602,9662,1,
166,9606,9663,1,
757,9582,9664,0,
9578,0,9665,2,
767,9582,9666,0,
249,9608,9667,1,
9609,0,9668,2,
8716,9610,9669,1,
9611,0,9670,2,
8716,9614,9671,1,
9613,0,9672,2,
8716,9612,9673,1,
9462,9613,9674,1,
259,9615,9675,1,
1551,9582,9676,0,
9616,6632,9677,0,
8716,9617,9678,1,
8716,9618,9679,1,
8716,9619,9680,1,
9023,9620,9681,0,
9616,6632,9682,1,
8716,9621,9683,1,
8716,9622,9684,1,
8437,9624,9685,0,
8335,9623,9686,0,
9484,9625,9687,0,
9626,0,9688,2,
9270,9626,9689,1,
9627,0,9690,2,
9052,9628,9691,0,
9056,9630,9692,1,
9512,9629,9693,1,
9629,0,9694,2,
9630,0,9695,2,
9631,0,9696,2,
6052,9633,9697,0,
9634,0,9698,2,
9635,0,9699,2,
9636,0,9700,2,
9637,0,9701,2,
9639,9173,9702,0,
9638,0,9703,2,
9640,8716,9704,0,
9174,9641,9705,0,
9639,0,9706,2,
9642,0,9707,2,
9590,9643,9708,0,
9094,9645,9709,0,
9646,0,9710,2,
9648,9330,9711,1,
9648,0,9712,2,
9647,0,9713,2,
9650,0,9714,2,
9655,0,9715,2,
9652,0,9716,2,
9657,8870,9717,1,
9656,0,9718,2,
9660,8493,9719,0,
9662,8875,9720,1,
9659,0,9721,2,
9657,0,9722,2,
9656,8872,9723,1,
9664,0,9724,2,
9662,0,9725,2,
9663,9340,9726,1,
9655,8873,9727,1,
9102,9652,9728,0,
9663,9340,9729,0,
9666,0,9730,2,
9667,9000,9731,1,
9659,8876,9732,1,
9667,9000,9733,0,
9174,9641,9734,1,
9669,8883,9735,1,
9669,0,9736,2,
9673,0,9737,2,
9462,9672,9738,0,
9671,8886,9739,1,
9673,8887,9740,1,
9674,0,9741,2,
9671,0,9742,2,
9675,6340,9743,1,
9676,0,9744,2,
9677,0,9745,2,
6340,9675,9746,0,
9678,8895,9747,1,
9678,0,9748,2,
9679,8908,9749,1,
9679,0,9750,2,
9680,8913,9751,1,
9680,0,9752,2,
8270,9681,9753,1,
8549,9682,9754,0,
9683,8918,9755,1,
9683,0,9756,2,
7944,9682,9757,0,
9684,8923,9758,1,
8159,9682,9759,0,
7913,9685,9760,1,
9684,0,9761,2,
7807,9686,9762,1,
8716,9687,9763,1,
9068,9682,9764,0,
9393,9688,9765,0,
9691,0,9766,2,
9692,0,9767,2,
9693,0,9768,2,
9512,9694,9769,0,
9056,9695,9770,0,
9575,9696,9771,0,
9697,0,9772,2,
9698,6474,9773,1,
6474,9698,9774,0,
9585,9701,9775,0,
7371,9700,9776,0,
9703,6575,9777,0,
9702,0,9778,2,
9705,0,9779,2,
9704,9171,9780,0,
9706,9307,9781,0,
9708,0,9782,2,
9093,9707,9783,0,
9709,0,9784,2,
9099,9710,9785,0,
9713,6589,9786,0,
9712,9198,9787,0,
9451,9714,9788,0,
9102,9716,9789,1,
8873,9715,9790,0,
8872,9718,9791,0,
9717,0,9792,2,
8870,9722,9793,0,
8876,9721,9794,0,
9720,0,9795,2,
9719,0,9796,2,
9592,9708,9797,1,
9723,0,9798,2,
9724,6936,9799,0,
9728,0,9800,2,
9446,9709,9801,1,
8875,9725,9802,0,
9730,6939,9803,0,
9732,0,9804,2,
9729,0,9805,2,
8748,9734,9806,1,
9733,0,9807,2,
8748,9734,9808,0,
9735,0,9809,2,
8883,9736,9810,0,
9740,0,9811,2,
8887,9737,9812,0,
9739,0,9813,2,
9738,0,9814,2,
9727,0,9815,2,
8886,9742,9816,0,
9744,6957,9817,0,
9746,0,9818,2,
7222,9745,9819,0,
9747,0,9820,2,
8895,9748,9821,0,
9749,0,9822,2,
8908,9750,9823,0,
9751,0,9824,2,
8913,9752,9825,0,
9754,0,9826,2,
9755,0,9827,2,
8918,9756,9828,0,
9757,0,9829,2,
9758,0,9830,2,
8923,9761,9831,0,
9759,0,9832,2,
9762,0,9833,2,
9763,8927,9834,1,
9764,0,9835,2,
9763,0,9836,2,
9765,0,9837,2,
9770,0,9838,2,
9769,0,9839,2,
9771,0,9840,2,
6475,9772,9841,0,
9774,0,9842,2,
9775,0,9843,2,
9776,0,9844,2,
6920,9776,9845,1,
9777,7467,9846,0,
9781,0,9847,2,
9780,9200,9848,0,
9779,9644,9849,0,
9783,0,9850,2,
9782,9649,9851,0,
9785,0,9852,2,
9446,9784,9853,0,
9787,0,9854,2,
9786,7470,9855,0,
9780,9200,9856,1,
9788,9661,9857,0,
9783,9540,9858,1,
9791,9792,9859,0,
9790,0,9860,2,
9789,0,9861,2,
9794,9795,9862,0,
9797,8576,9863,0,
9793,0,9864,2,
9792,9798,9865,0,
9801,0,9866,2,
9797,0,9867,2,
9802,0,9868,2,
7473,9799,9869,0,
9791,0,9870,2,
7474,9803,9871,0,
9808,0,9872,2,
9448,9785,9873,1,
9810,0,9874,2,
9812,9813,9875,0,
9556,9814,9876,0,
9813,9811,9877,0,
9816,0,9878,2,
7478,9817,9879,0,
9794,0,9880,2,
9819,0,9881,2,
9821,0,9882,2,
9812,0,9883,2,
9823,0,9884,2,
9825,0,9885,2,
9826,8920,9886,0,
9828,0,9887,2,
9829,8225,9888,0,
9831,0,9889,2,
9832,8524,9890,0,
9835,9486,9891,0,
9834,0,9892,2,
8927,9836,9893,0,
9840,9519,9894,1,
9519,9840,9895,0,
9841,0,9896,2,
9841,5882,9897,1,
9778,9843,9898,0,
7189,9844,9899,0,
258,9846,9900,1,
764,9845,9901,0,
9849,0,9902,2,
8995,9848,9903,1,
9595,9850,9904,0,
9851,0,9905,2,
9853,0,9906,2,
9848,8868,9907,0,
9448,9852,9908,0,
762,9845,9909,0,
9856,9658,9910,0,
185,9855,9911,1,
9856,9658,9912,1,
9857,0,9913,2,
9859,0,9914,2,
9860,9727,9915,0,
9858,0,9916,2,
9862,0,9917,2,
9863,0,9918,2,
757,9845,9919,0,
8498,9867,9920,0,
166,9869,9921,1,
767,9845,9922,0,
249,9871,9923,1,
9711,9849,9924,1,
9873,0,9925,2,
9876,0,9926,2,
9875,0,9927,2,
9743,9876,9928,1,
259,9879,9929,1,
1551,9845,9930,0,
9881,7480,9931,0,
9881,7480,9932,1,
9026,9886,9933,0,
8336,9888,9934,0,
8445,9890,9935,0,
9487,9891,9936,0,
9893,0,9937,2,
9895,0,9938,2,
5882,9896,9939,0,
9635,9897,9940,0,
9897,0,9941,2,
9653,9905,9942,0,
9899,0,9943,2,
9898,0,9944,2,
9901,0,9945,2,
9593,9900,9946,0,
9900,0,9947,2,
9711,9902,9948,0,
9903,0,9949,2,
9904,0,9950,2,
9903,9654,9951,1,
9548,9906,9952,0,
9907,0,9953,2,
9909,0,9954,2,
9908,0,9955,2,
9911,9607,9956,0,
9911,9607,9957,1,
9796,9913,9958,0,
9914,9864,9959,0,
9915,0,9960,2,
9917,9868,9961,0,
9921,9670,9962,1,
9920,0,9963,2,
9919,0,9964,2,
9923,9460,9965,1,
9922,0,9966,2,
9921,9670,9967,0,
9923,9460,9968,0,
9924,8888,9969,1,
9924,0,9970,2,
9743,9926,9971,0,
9927,9878,9972,0,
9910,0,9973,2,
9928,0,9974,2,
9929,7226,9975,1,
9930,0,9976,2,
9931,0,9977,2,
7226,9929,9978,0,
9068,9932,9979,0,
8270,9933,9980,1,
8549,9932,9981,0,
8159,9932,9982,0,
7807,9934,9983,1,
7944,9932,9984,0,
7913,9935,9985,1,
8716,9936,9986,1,
9939,0,9987,2,
9940,0,9988,2,
7377,9943,9989,0,
9847,9944,9990,0,
9946,0,9991,2,
9945,7379,9992,0,
9948,0,9993,2,
9949,9654,9994,0,
9947,9651,9995,0,
9951,9336,9996,1,
9546,9950,9997,0,
9951,0,9998,2,
9942,0,9999,2,
9550,9955,10000,0,
9954,7383,10001,0,
9952,0,10002,2,
9957,0,10003,2,
9956,0,10004,2,
9958,0,10005,2,
9804,9960,10006,0,
9959,9860,10007,0,
9578,9942,10008,1,
9961,0,10009,2,
9964,6613,10010,0,
9967,0,10011,2,
9966,6616,10012,0,
9726,9952,10013,1,
9968,0,10014,2,
9970,8751,10015,0,
9971,0,10016,2,
9976,6651,10017,0,
7567,9977,10018,0,
9978,0,10019,2,
9979,0,10020,2,
9981,0,10021,2,
9982,0,10022,2,
9983,0,10023,2,
9984,0,10024,2,
9986,8931,10025,1,
9986,0,10026,2,
6206,9987,10027,0,
9990,0,10028,2,
9989,0,10029,2,
9992,6930,10030,0,
6588,9989,10031,1,
9994,0,10032,2,
9995,0,10033,2,
9854,9993,10034,0,
9997,0,10035,2,
9999,9665,10036,0,
9910,9996,10037,0,
9912,9996,10038,0,
9998,9207,10039,0,
10001,6937,10040,0,
9726,10002,10041,0,
10000,0,10042,2,
10004,10003,10043,0,
10004,9800,10044,0,
9997,9789,10045,1,
9918,10005,10046,0,
10006,9795,10047,0,
9809,10009,10048,0,
10008,8579,10049,0,
7476,10010,10050,0,
10008,0,10051,2,
10013,0,10052,2,
7477,10012,10053,0,
10015,0,10054,2,
9731,10000,10055,1,
9818,10016,10056,0,
7481,10017,10057,0,
10018,0,10058,2,
9480,10020,10059,0,
10021,8924,10060,0,
10022,8522,10061,0,
10024,8231,10062,0,
10025,0,10063,2,
8931,10026,10064,0,
10027,0,10065,2,
10027,5492,10066,1,
9991,10028,10067,0,
6929,10029,10068,0,
764,10031,10069,0,
258,10030,10070,1,
10032,9953,10071,0,
10034,0,10072,2,
9861,10035,10073,0,
10039,0,10074,2,
10037,0,10075,2,
10036,0,10076,2,
185,10040,10077,1,
9731,10042,10078,0,
10041,0,10079,2,
762,10031,10080,0,
10043,0,10081,2,
10046,0,10082,2,
10047,9809,10083,0,
10045,0,10084,2,
10049,0,10085,2,
10048,0,10086,2,
166,10050,10087,1,
757,10031,10088,0,
8501,10051,10089,0,
249,10053,10090,1,
767,10031,10091,0,
9912,10034,10092,1,
10055,0,10093,2,
10056,0,10094,2,
9975,10056,10095,1,
1551,10031,10096,0,
259,10057,10097,1,
10058,7482,10098,0,
10058,7482,10099,1,
9483,10059,10100,0,
9030,10060,10101,0,
8446,10061,10102,0,
8342,10062,10103,0,
10064,0,10104,2,
5492,10065,10105,0,
10066,0,10106,2,
10067,0,10107,2,
10068,0,10108,2,
10069,0,10109,2,
9858,10070,10110,0,
10070,0,10111,2,
10038,10072,10112,0,
10071,0,10113,2,
9723,10071,10114,1,
9668,10076,10115,0,
10074,10075,10116,0,
10073,0,10117,2,
10077,9866,10118,1,
9805,10079,10119,0,
10078,0,10120,2,
10080,0,10121,2,
9963,10082,10122,0,
10077,9866,10123,0,
10086,9874,10124,0,
10088,0,10125,2,
10087,9925,10126,1,
10089,0,10127,2,
10090,9741,10128,1,
10087,9925,10129,0,
10091,0,10130,2,
10090,9741,10131,0,
9912,10072,10132,0,
10092,8892,10133,1,
10092,0,10134,2,
9975,10094,10135,0,
10095,0,10136,2,
10097,6667,10137,1,
10096,0,10138,2,
10098,0,10139,2,
6667,10097,10140,0,
8607,10100,10141,1,
8159,10099,10142,0,
8549,10099,10143,0,
8270,10101,10144,1,
7913,10102,10145,1,
7944,10099,10146,0,
7807,10103,10147,1,
9068,10099,10148,0,
10105,0,10149,2,
10033,10107,10150,0,
6934,10108,10151,0,
10110,0,10152,2,
10109,6600,10153,0,
10111,9916,10154,0,
9865,10113,10155,0,
9798,10113,10156,0,
10112,0,10157,2,
10114,0,10158,2,
10044,10117,10159,0,
10115,0,10160,2,
10118,10081,10161,0,
9807,10120,10162,0,
10119,0,10163,2,
10121,7388,10164,0,
9214,10114,10165,0,
9800,10117,10166,0,
10123,0,10167,2,
10122,0,10168,2,
10125,7392,10169,0,
10129,0,10170,2,
9962,10119,10171,1,
10130,7393,10172,0,
10131,0,10173,2,
10132,0,10174,2,
10134,8756,10175,0,
10135,0,10176,2,
10138,7397,10177,0,
7568,10139,10178,0,
10140,0,10179,2,
9129,10141,10180,0,
10142,0,10181,2,
10143,0,10182,2,
10146,0,10183,2,
10147,0,10184,2,
9129,10141,10185,1,
10148,0,10186,2,
5883,10149,10187,0,
10151,0,10188,2,
10150,0,10189,2,
10153,7472,10190,0,
6601,10151,10191,1,
10155,0,10192,2,
10116,10157,10193,0,
10154,0,10194,2,
10156,0,10195,2,
9214,10158,10196,1,
9806,10160,10197,0,
10159,0,10198,2,
10162,0,10199,2,
9962,10163,10200,0,
10166,0,10201,2,
10165,0,10202,2,
9957,10166,10203,1,
7210,10164,10204,0,
10085,10168,10205,0,
10160,9806,10206,1,
7217,10169,10207,0,
10171,0,10208,2,
7221,10172,10209,0,
10174,9973,10210,0,
10175,0,10211,2,
9965,10162,10212,1,
10019,10176,10213,0,
7234,10177,10214,0,
10178,0,10215,2,
10181,8525,10216,0,
10180,0,10217,2,
10182,8929,10218,0,
10183,8234,10219,0,
10186,9489,10220,0,
10187,0,10221,2,
10187,5884,10222,1,
6938,10188,10223,0,
10152,10189,10224,0,
764,10191,10225,0,
258,10190,10226,1,
10007,10192,10227,0,
10193,0,10228,2,
10196,0,10229,2,
9870,10195,10230,0,
10197,0,10231,2,
10161,10198,10232,0,
9965,10199,10233,0,
10200,0,10234,2,
185,10204,10235,1,
10203,0,10236,2,
762,10191,10237,0,
9957,10201,10238,0,
9959,10192,10239,0,
10205,0,10240,2,
10206,8581,10241,0,
10206,0,10242,2,
166,10207,10243,1,
757,10191,10244,0,
249,10209,10245,1,
767,10191,10246,0,
10196,10193,10247,1,
9996,10210,10248,1,
10212,0,10249,2,
10213,0,10250,2,
10137,10213,10251,1,
1551,10191,10252,0,
259,10214,10253,1,
10215,6364,10254,0,
10215,6364,10255,1,
8447,10216,10256,0,
9131,10217,10257,0,
9033,10218,10258,0,
8345,10219,10259,0,
9490,10220,10260,0,
5884,10221,10261,0,
10222,0,10262,2,
10222,10066,10263,0,
10248,8901,10264,1,
10223,0,10265,2,
10224,0,10266,2,
10045,10226,10267,0,
10225,0,10268,2,
9717,10230,10269,1,
10227,0,10270,2,
10229,10228,10271,0,
10226,0,10272,2,
10232,0,10273,2,
9872,10231,10274,0,
10233,0,10275,2,
10011,10234,10276,0,
10238,0,10277,2,
10235,10052,10278,1,
10237,0,10279,2,
10235,10052,10280,0,
10127,10240,10281,0,
9727,10239,10282,1,
10239,0,10283,2,
10241,0,10284,2,
10242,8503,10285,0,
10244,0,10286,2,
10243,10093,10287,1,
10245,9974,10288,1,
10243,10093,10289,0,
10246,0,10290,2,
10245,9974,10291,0,
10248,0,10292,2,
10247,8776,10293,0,
10247,8907,10294,1,
10137,10250,10295,0,
10251,0,10296,2,
10253,6365,10297,1,
10252,0,10298,2,
10254,0,10299,2,
6365,10253,10300,0,
8159,10255,10301,0,
7944,10255,10302,0,
10257,0,10303,2,
7913,10256,10304,1,
8549,10255,10305,0,
8270,10258,10306,1,
7807,10259,10307,1,
9132,10257,10308,1,
8716,10260,10309,1,
9068,10255,10310,0,
10261,0,10311,2,
10263,0,10312,2,
6941,10265,10313,0,
10194,10266,10314,0,
10267,0,10315,2,
10268,6943,10316,0,
10269,0,10317,2,
10083,10270,10318,0,
10271,0,10319,2,
10272,10084,10320,0,
10167,10273,10321,0,
10274,0,10322,2,
10014,10275,10323,0,
10276,0,10324,2,
9222,10269,10325,0,
10004,10277,10326,0,
10279,6630,10327,0,
10047,10270,10328,0,
10280,0,10329,2,
10281,0,10330,2,
10282,0,10331,2,
9815,10283,10332,0,
10006,10270,10333,0,
10274,9969,10334,1,
10285,0,10335,2,
9226,10282,10336,0,
10286,6644,10337,0,
10290,6650,10338,0,
10126,10276,10339,1,
10289,0,10340,2,
10291,0,10341,2,
10292,8770,10342,0,
10293,0,10343,2,
10294,0,10344,2,
10295,0,10345,2,
10298,6686,10346,0,
10300,0,10347,2,
6993,10299,10348,0,
10301,0,10349,2,
9254,10303,10350,0,
10302,0,10351,2,
10305,0,10352,2,
10307,0,10353,2,
10308,0,10354,2,
10310,0,10355,2,
10309,0,10356,2,
6211,10311,10357,0,
10313,0,10358,2,
10314,0,10359,2,
6329,10313,10360,1,
10316,7212,10361,0,
10202,10319,10362,0,
10318,0,10363,2,
10320,0,10364,2,
9222,10317,10365,1,
9969,10322,10366,0,
10321,0,10367,2,
10323,0,10368,2,
10126,10324,10369,0,
10118,10326,10370,1,
10325,0,10371,2,
7220,10327,10372,0,
10328,0,10373,2,
10284,10330,10374,0,
9226,10331,10375,1,
10332,0,10376,2,
10334,0,10377,2,
10333,0,10378,2,
10336,0,10379,2,
10278,10321,10380,1,
7227,10337,10381,0,
10339,0,10382,2,
7229,10338,10383,0,
10294,10343,10384,0,
10342,0,10385,2,
10128,10323,10386,1,
10179,10345,10387,0,
7241,10346,10388,0,
10348,0,10389,2,
10349,8523,10390,0,
10350,0,10391,2,
10351,8236,10392,0,
10352,8932,10393,0,
10309,10354,10394,1,
9494,10355,10395,0,
10356,10308,10396,0,
10357,0,10397,2,
10315,10359,10398,0,
6617,10358,10399,0,
258,10361,10400,1,
764,10360,10401,0,
10124,10363,10402,0,
10365,0,10403,2,
10362,0,10404,2,
10366,0,10405,2,
10278,10367,10406,0,
10369,0,10407,2,
10128,10368,10408,0,
185,10372,10409,1,
9961,10373,10410,0,
762,10360,10411,0,
10370,0,10412,2,
10374,0,10413,2,
9860,10376,10414,0,
10375,0,10415,2,
9880,10378,10416,0,
10377,8583,10417,0,
10377,0,10418,2,
10380,0,10419,2,
10365,10362,10420,1,
166,10381,10421,1,
757,10360,10422,0,
249,10383,10423,1,
767,10360,10424,0,
10384,0,10425,2,
10386,0,10426,2,
10387,0,10427,2,
10297,10387,10428,1,
1551,10360,10429,0,
259,10388,10430,1,
10389,6701,10431,0,
8443,10390,10432,0,
10389,6701,10433,1,
9255,10391,10434,0,
8344,10392,10435,0,
9036,10393,10436,0,
9496,10395,10437,0,
10396,0,10438,2,
5699,10397,10439,0,
10397,5699,10440,1,
10399,0,10441,2,
10398,0,10442,2,
10401,0,10443,2,
10400,10236,10444,0,
10400,0,10445,2,
10403,10404,10446,0,
10402,0,10447,2,
10054,10405,10448,0,
10406,0,10449,2,
10170,10407,10450,0,
10408,0,10451,2,
9735,10410,10452,1,
10411,0,10453,2,
10409,10208,10454,1,
9732,10414,10455,1,
10409,10208,10456,0,
10335,10413,10457,0,
9720,10416,10458,1,
10417,0,10459,2,
8506,10418,10460,0,
10421,10249,10461,1,
9740,10402,10462,1,
10422,0,10463,2,
10420,0,10464,2,
10421,10249,10465,0,
10424,0,10466,2,
10423,10136,10467,1,
10423,10136,10468,0,
8784,10420,10469,0,
10297,10427,10470,0,
10428,0,10471,2,
10429,0,10472,2,
10430,7245,10473,1,
10431,0,10474,2,
7245,10430,10475,0,
7913,10432,10476,1,
8159,10433,10477,0,
7944,10433,10478,0,
10434,0,10479,2,
7807,10435,10480,1,
8549,10433,10481,0,
8270,10436,10482,1,
9068,10433,10483,0,
9256,10434,10484,1,
8607,10437,10485,1,
10439,0,10486,2,
10440,0,10487,2,
6948,10441,10488,0,
10364,10442,10489,0,
10443,6949,10490,0,
10444,0,10491,2,
9877,10447,10492,0,
10446,0,10493,2,
10445,10203,10494,0,
10329,10449,10495,0,
10448,0,10496,2,
10173,10451,10497,0,
10450,0,10498,2,
10452,0,10499,2,
10453,6964,10500,0,
10456,0,10501,2,
10455,0,10502,2,
10457,0,10503,2,
10448,10133,10504,1,
9811,10447,10505,0,
9231,10458,10506,0,
10460,0,10507,2,
9230,10452,10508,0,
8784,10464,10509,1,
10458,0,10510,2,
10463,6970,10511,0,
10462,0,10512,2,
9232,10455,10513,0,
10466,6975,10514,0,
10465,0,10515,2,
10287,10450,10516,1,
10468,0,10517,2,
9237,10462,10518,0,
10470,0,10519,2,
10469,0,10520,2,
10472,7001,10521,0,
7249,10474,10522,0,
10475,0,10523,2,
10477,0,10524,2,
10478,0,10525,2,
10481,0,10526,2,
10480,0,10527,2,
9377,10479,10528,0,
10483,0,10529,2,
10484,10485,10530,1,
10484,10485,10531,0,
5890,10486,10532,0,
10488,0,10533,2,
10489,0,10534,2,
10490,7219,10535,0,
6631,10488,10536,1,
10492,0,10537,2,
10371,10493,10538,0,
10494,0,10539,2,
10495,0,10540,2,
10133,10496,10541,0,
10287,10498,10542,0,
10497,0,10543,2,
7228,10500,10544,0,
9230,10499,10545,1,
10459,10503,10546,0,
9232,10502,10547,1,
10505,0,10548,2,
10504,0,10549,2,
10508,0,10550,2,
10513,0,10551,2,
7231,10511,10552,0,
9231,10510,10553,1,
10454,10495,10554,1,
10509,0,10555,2,
9237,10512,10556,1,
7233,10514,10557,0,
10516,0,10558,2,
10518,0,10559,2,
10288,10497,10560,1,
10506,0,10561,2,
10347,10519,10562,0,
7250,10521,10563,0,
10522,0,10564,2,
10524,8527,10565,0,
10526,8934,10566,0,
10525,8239,10567,0,
10528,0,10568,2,
10529,9498,10569,0,
10530,0,10570,2,
10531,0,10571,2,
10532,0,10572,2,
5702,10532,10573,1,
10491,10534,10574,0,
6954,10533,10575,0,
258,10535,10576,1,
764,10536,10577,0,
9972,10537,10578,0,
10538,0,10579,2,
10454,10540,10580,0,
10541,0,10581,2,
10542,0,10582,2,
10288,10543,10583,0,
185,10544,10584,1,
762,10536,10585,0,
10375,10538,10586,1,
10545,0,10587,2,
10547,0,10588,2,
10546,0,10589,2,
9883,10548,10590,0,
10549,8587,10591,0,
10549,0,10592,2,
10556,0,10593,2,
10554,0,10594,2,
10553,0,10595,2,
166,10552,10596,1,
10555,10425,10597,0,
757,10536,10598,0,
767,10536,10599,0,
249,10557,10600,1,
1551,10536,10601,0,
10560,0,10602,2,
10562,0,10603,2,
10473,10562,10604,1,
259,10563,10605,1,
10564,6725,10606,0,
8449,10565,10607,0,
10564,6725,10608,1,
9488,10568,10609,0,
9038,10566,10610,0,
8347,10567,10611,0,
9500,10569,10612,0,
5891,10572,10613,0,
10573,0,10614,2,
10211,10581,10615,0,
10575,0,10616,2,
10574,0,10617,2,
10577,0,10618,2,
10576,10412,10619,0,
10415,10579,10620,0,
10578,0,10621,2,
10576,0,10622,2,
10580,0,10623,2,
10340,10582,10624,0,
10583,0,10625,2,
10506,10587,10626,0,
10584,10382,10627,1,
10585,0,10628,2,
10586,0,10629,2,
10584,10382,10630,0,
10507,10589,10631,0,
10591,0,10632,2,
9739,10590,10633,1,
8511,10592,10634,0,
9747,10578,10635,1,
8785,10586,10636,0,
10587,10595,10637,0,
10596,10426,10638,1,
10598,0,10639,2,
10596,10426,10640,0,
10599,0,10641,2,
10600,10296,10642,1,
10600,10296,10643,0,
10601,0,10644,2,
10473,10603,10645,0,
10604,0,10646,2,
10605,6397,10647,1,
6397,10605,10648,0,
10606,0,10649,2,
7913,10607,10650,1,
7944,10608,10651,0,
8159,10608,10652,0,
7807,10611,10653,1,
8270,10610,10654,1,
9068,10608,10655,0,
10609,0,10656,2,
8549,10608,10657,0,
9260,10609,10658,1,
8716,10612,10659,1,
10613,0,10660,2,
10539,10617,10661,0,
6959,10616,10662,0,
10618,6646,10663,0,
10619,0,10664,2,
10620,0,10665,2,
10622,10370,10666,0,
9820,10621,10667,0,
10501,10623,10668,0,
10615,0,10669,2,
10341,10625,10670,0,
10624,0,10671,2,
8785,10629,10672,1,
10626,0,10673,2,
10628,6972,10674,0,
10631,0,10675,2,
10630,0,10676,2,
10633,0,10677,2,
10615,10264,10678,1,
9238,10633,10679,0,
10635,0,10680,2,
10634,0,10681,2,
9241,10635,10682,0,
10636,0,10683,2,
10637,10593,10684,0,
10639,6982,10685,0,
10641,6985,10686,0,
10640,0,10687,2,
10461,10624,10688,1,
10643,0,10689,2,
10644,6990,10690,0,
10645,0,10691,2,
10648,0,10692,2,
7258,10649,10693,0,
10651,0,10694,2,
10652,0,10695,2,
9382,10656,10696,0,
10655,0,10697,2,
10653,0,10698,2,
10657,0,10699,2,
10658,0,10700,2,
10659,0,10701,2,
6066,10660,10702,0,
10662,0,10703,2,
10661,0,10704,2,
10663,7225,10705,0,
6645,10662,10706,1,
10667,0,10707,2,
10666,0,10708,2,
10379,10665,10709,0,
10668,0,10710,2,
10264,10669,10711,0,
10461,10671,10712,0,
10670,0,10713,2,
10672,0,10714,2,
7232,10674,10715,0,
10550,10673,10716,0,
10632,10675,10717,0,
10679,0,10718,2,
9238,10677,10719,1,
10678,0,10720,2,
9241,10680,10721,1,
10627,10668,10722,1,
7235,10685,10723,0,
7239,10686,10724,0,
10688,0,10725,2,
7242,10690,10726,0,
10467,10670,10727,1,
10523,10691,10728,0,
10682,0,10729,2,
10693,0,10730,2,
10695,8528,10731,0,
10694,8241,10732,0,
9491,10697,10733,0,
10696,0,10734,2,
10699,8939,10735,0,
10659,10700,10736,1,
10701,10658,10737,0,
10702,0,10738,2,
10664,10704,10739,0,
6966,10703,10740,0,
764,10706,10741,0,
258,10705,10742,1,
9882,10707,10743,0,
10709,0,10744,2,
10627,10710,10745,0,
10711,0,10746,2,
10467,10713,10747,0,
10712,0,10748,2,
185,10715,10749,1,
762,10706,10750,0,
10469,10714,10751,0,
10716,0,10752,2,
10547,10709,10753,1,
10717,0,10754,2,
10597,10714,10755,0,
10718,10719,10756,0,
10720,8915,10757,0,
10720,0,10758,2,
10721,0,10759,2,
10722,0,10760,2,
757,10706,10761,0,
166,10723,10762,1,
249,10724,10763,1,
767,10706,10764,0,
259,10726,10765,1,
10727,0,10766,2,
10719,0,10767,2,
10728,0,10768,2,
10647,10728,10769,1,
1551,10706,10770,0,
10730,7026,10771,0,
8348,10732,10772,0,
10730,7026,10773,1,
8451,10731,10774,0,
9493,10734,10775,0,
9492,10733,10776,0,
9042,10735,10777,0,
10737,0,10778,2,
10736,0,10779,2,
10738,6216,10780,0,
10738,6216,10781,1,
10740,0,10782,2,
10739,0,10783,2,
10742,10419,10784,0,
10741,0,10785,2,
10588,10744,10786,0,
9749,10743,10787,1,
10743,0,10788,2,
10742,0,10789,2,
10385,10746,10790,0,
10746,10343,10791,0,
10745,0,10792,2,
10747,0,10793,2,
10515,10748,10794,0,
10753,8792,10795,0,
10593,10752,10796,0,
10751,0,10797,2,
10750,0,10798,2,
10749,10558,10799,1,
10753,8914,10800,1,
10681,10754,10801,0,
10749,10558,10802,0,
10756,0,10803,2,
8791,10758,10804,0,
10757,0,10805,2,
10762,10602,10806,1,
10761,0,10807,2,
10762,10602,10808,0,
10763,10471,10809,1,
10764,0,10810,2,
10763,10471,10811,0,
10765,7003,10812,0,
10647,10768,10813,0,
10769,0,10814,2,
10765,6706,10815,1,
10770,0,10816,2,
10771,0,10817,2,
7944,10773,10818,0,
7913,10774,10819,1,
8159,10773,10820,0,
7807,10772,10821,1,
9387,10775,10822,1,
10775,0,10823,2,
8607,10776,10824,1,
8549,10773,10825,0,
8270,10777,10826,1,
9068,10773,10827,0,
10780,0,10828,2,
6969,10782,10829,0,
10708,10783,10830,0,
10785,6974,10831,0,
10784,0,10832,2,
10789,10380,10833,0,
10786,0,10834,2,
9822,10788,10835,0,
10787,0,10836,2,
10676,10792,10837,0,
10790,0,10838,2,
10791,10385,10839,0,
10517,10793,10840,0,
10794,0,10841,2,
9471,10787,10842,0,
10796,0,10843,2,
10798,6679,10844,0,
10795,0,10845,2,
10683,10797,10846,0,
10800,8914,10847,0,
10801,0,10848,2,
10802,0,10849,2,
10804,0,10850,2,
10759,10803,10851,0,
10800,0,10852,2,
10807,6695,10853,0,
10808,0,10854,2,
10638,10794,10855,1,
10810,6705,10856,0,
10811,0,10857,2,
10812,0,10858,2,
10813,0,10859,2,
10816,6749,10860,0,
7412,10817,10861,0,
10815,0,10862,2,
10820,0,10863,2,
10821,0,10864,2,
10818,0,10865,2,
10822,10824,10866,0,
9495,10823,10867,0,
10825,0,10868,2,
10827,0,10869,2,
10822,10824,10870,1,
6486,10828,10871,0,
10829,0,10872,2,
10830,0,10873,2,
6351,10829,10874,1,
10831,6977,10875,0,
10835,0,10876,2,
10833,0,10877,2,
10551,10834,10878,0,
9471,10836,10879,1,
10839,0,10880,2,
10838,10344,10881,0,
10838,10344,10882,1,
10837,0,10883,2,
10840,0,10884,2,
10638,10841,10885,0,
7237,10844,10886,0,
10559,10843,10887,0,
10842,0,10888,2,
10846,10845,10889,0,
10805,10848,10890,0,
10847,0,10891,2,
7246,10853,10892,0,
10799,10837,10893,1,
7248,10856,10894,0,
10855,0,10895,2,
7009,10858,10896,0,
10642,10840,10897,1,
10692,10859,10898,0,
7266,10860,10899,0,
10861,0,10900,2,
10863,8530,10901,0,
10865,8246,10902,0,
10867,0,10903,2,
10866,0,10904,2,
10868,8941,10905,0,
9502,10869,10906,0,
10871,0,10907,2,
10871,5895,10908,1,
10832,10873,10909,0,
6666,10872,10910,0,
258,10875,10911,1,
764,10874,10912,0,
10553,10878,10913,1,
10879,0,10914,2,
9884,10876,10915,0,
10878,0,10916,2,
10755,10880,10917,0,
10882,0,10918,2,
10799,10883,10919,0,
10881,0,10920,2,
10642,10884,10921,0,
10885,0,10922,2,
762,10874,10923,0,
10597,10880,10924,0,
185,10886,10925,1,
10887,10718,10926,0,
8916,10882,10927,0,
10890,0,10928,2,
757,10874,10929,0,
166,10892,10930,1,
10893,0,10931,2,
767,10874,10932,0,
249,10894,10933,1,
10896,0,10934,2,
10897,0,10935,2,
10815,10898,10936,1,
6724,10896,10937,1,
10898,0,10938,2,
259,10899,10939,1,
10900,7042,10940,0,
1551,10874,10941,0,
10900,7042,10942,1,
8455,10901,10943,0,
8351,10902,10944,0,
10903,10904,10945,0,
9045,10905,10946,0,
9505,10906,10947,0,
5895,10907,10948,0,
10908,0,10949,2,
10910,0,10950,2,
10909,0,10951,2,
10911,10594,10952,0,
10912,0,10953,2,
10682,10914,10954,0,
10913,0,10955,2,
9751,10915,10956,1,
10915,0,10957,2,
10911,0,10958,2,
10595,10916,10959,0,
10917,0,10960,2,
10684,10916,10961,0,
8794,10918,10962,0,
10920,10343,10963,0,
10919,0,10964,2,
10687,10922,10965,0,
10921,0,10966,2,
10925,10725,10967,1,
10923,0,10968,2,
10851,10914,10969,0,
10924,0,10970,2,
10637,10916,10971,0,
10927,0,10972,2,
8793,10913,10973,0,
10925,10725,10974,0,
10930,10766,10975,1,
10929,0,10976,2,
10930,10766,10977,0,
10933,10646,10978,1,
10932,0,10979,2,
10933,10646,10980,0,
7019,10934,10981,0,
10936,0,10982,2,
10939,10937,10983,1,
10862,10938,10984,0,
10941,0,10985,2,
10940,0,10986,2,
7944,10942,10987,0,
10939,10937,10988,0,
7913,10943,10989,1,
7807,10944,10990,1,
8159,10942,10991,0,
8549,10942,10992,0,
10945,0,10993,2,
8270,10946,10994,1,
9068,10942,10995,0,
8607,10947,10996,1,
9689,10945,10997,1,
10948,0,10998,2,
10781,10949,10999,0,
10877,10951,11000,0,
6670,10950,11001,0,
10952,0,11002,2,
10953,6682,11003,0,
10956,0,11004,2,
9824,10957,11005,0,
10958,10554,11006,0,
10954,0,11007,2,
8793,10955,11008,1,
10889,10960,11009,0,
10509,10963,11010,1,
10849,10964,11011,0,
10962,0,11012,2,
10846,10960,11013,0,
10961,0,11014,2,
10959,0,11015,2,
10689,10966,11016,0,
10965,0,11017,2,
10968,6994,11018,0,
10970,10520,11019,0,
9753,10956,11020,0,
10971,0,11021,2,
10973,0,11022,2,
10974,0,11023,2,
10976,7010,11024,0,
10979,7011,11025,0,
10977,0,11026,2,
10806,10965,11027,1,
10980,0,11028,2,
10981,0,11029,2,
10983,0,11030,2,
10984,0,11031,2,
10985,7051,11032,0,
7416,10986,11033,0,
10987,0,11034,2,
10988,0,11035,2,
10990,0,11036,2,
10991,0,11037,2,
10992,0,11038,2,
10994,10570,11039,1,
9689,10993,11040,0,
10994,10530,11041,0,
10995,0,11042,2,
10997,10996,11043,1,
10997,0,11044,2,
6220,10998,11045,0,
11001,0,11046,2,
11000,0,11047,2,
6983,11001,11048,1,
11003,7236,11049,0,
11006,0,11050,2,
11005,0,11051,2,
10888,11007,11052,0,
11008,0,11053,2,
9753,11004,11054,1,
11011,0,11055,2,
11009,0,11056,2,
10926,11014,11057,0,
11015,10561,11058,0,
10850,11012,11059,0,
11010,8917,11060,0,
11013,0,11061,2,
10806,11017,11062,0,
11016,0,11063,2,
11020,0,11064,2,
10672,11019,11065,1,
11010,0,11066,2,
6996,11018,11067,0,
10887,11014,11068,0,
10716,11021,11069,0,
10967,11011,11070,1,
7012,11024,11071,0,
11027,0,11072,2,
7016,11025,11073,0,
7025,11029,11074,0,
10809,11016,11075,1,
11033,0,11076,2,
7058,11032,11077,0,
11034,8244,11078,0,
11037,8532,11079,0,
11038,8944,11080,0,
11040,0,11081,2,
11039,0,11082,2,
11041,0,11083,2,
9510,11042,11084,0,
11043,0,11085,2,
11044,10996,11086,0,
11045,0,11087,2,
6071,11045,11088,1,
7238,11046,11089,0,
11002,11047,11090,0,
764,11048,11091,0,
258,11049,11092,1,
9885,11051,11093,0,
11052,0,11094,2,
10891,11053,11095,0,
11054,0,11096,2,
11059,10928,11097,0,
11060,0,11098,2,
11061,10852,11099,0,
10545,11058,11100,1,
11057,0,11101,2,
10967,11055,11102,0,
11062,0,11103,2,
10809,11063,11104,0,
11061,10852,11105,1,
762,11048,11106,0,
11065,0,11107,2,
11066,8795,11108,0,
185,11067,11109,1,
10556,11069,11110,1,
11068,0,11111,2,
10719,11068,11112,1,
11065,9128,11113,0,
767,11048,11114,0,
11070,0,11115,2,
757,11048,11116,0,
166,11071,11117,1,
249,11073,11118,1,
1551,11048,11119,0,
11074,0,11120,2,
11075,0,11121,2,
259,11077,11122,1,
11076,6433,11123,1,
6411,11074,11124,1,
11076,6433,11125,0,
8349,11078,11126,0,
8458,11079,11127,0,
9048,11080,11128,0,
9837,11081,11129,0,
10571,11083,11130,0,
9513,11084,11131,0,
11086,0,11132,2,
6071,11087,11133,0,
11088,0,11134,2,
11089,0,11135,2,
11090,0,11136,2,
11092,10760,11137,0,
11091,0,11138,2,
11095,11056,11139,0,
11096,11094,11140,0,
10969,11096,11141,0,
11093,0,11142,2,
11092,0,11143,2,
11099,0,11144,2,
11097,0,11145,2,
10972,11098,11146,0,
11100,0,11147,2,
9755,11093,11148,1,
11102,0,11149,2,
10854,11103,11150,0,
11105,9566,11151,0,
11104,0,11152,2,
11106,0,11153,2,
11108,0,11154,2,
11105,0,11155,2,
11107,9027,11156,0,
11109,10895,11157,1,
11109,10895,11158,0,
10851,11101,11159,0,
10767,11111,11160,0,
11113,0,11161,2,
11110,0,11162,2,
9028,11100,11163,0,
11112,0,11164,2,
9485,11110,11165,0,
10969,11101,11166,0,
11114,0,11167,2,
11117,10935,11168,1,
11116,0,11169,2,
9760,11112,11170,0,
11118,10814,11171,1,
11117,10935,11172,0,
11119,0,11173,2,
11118,10814,11174,0,
6747,11120,11175,0,
11122,11124,11176,1,
7944,11123,11177,0,
11125,0,11178,2,
8159,11123,11179,0,
7807,11126,11180,1,
11122,11124,11181,0,
7913,11127,11182,1,
8270,11128,11183,1,
8549,11123,11184,0,
9068,11123,11185,0,
11129,0,11186,2,
11130,0,11187,2,
9627,11129,11188,1,
8607,11131,11189,1,
11133,0,11190,2,
11050,11136,11191,0,
7240,11135,11192,0,
11138,6698,11193,0,
11137,0,11194,2,
11141,11101,11195,0,
11140,0,11196,2,
9827,11142,11197,0,
11143,10722,11198,0,
11139,0,11199,2,
11023,11149,11200,0,
11146,11145,11201,0,
11144,10845,11202,0,
11148,0,11203,2,
9028,11147,11204,1,
11151,0,11205,2,
10857,11152,11206,0,
11150,0,11207,2,
11155,9478,11208,0,
11153,6717,11209,0,
11160,0,11210,2,
9760,11164,11211,1,
9485,11162,11212,1,
11163,0,11213,2,
11158,0,11214,2,
11159,0,11215,2,
9980,11148,11216,0,
11166,0,11217,2,
10975,11150,11218,1,
11170,0,11219,2,
11167,6736,11220,0,
11169,6738,11221,0,
11172,0,11222,2,
11173,6748,11223,0,
11174,0,11224,2,
11175,0,11225,2,
11165,0,11226,2,
11177,0,11227,2,
7064,11178,11228,0,
11180,0,11229,2,
11179,0,11230,2,
11181,0,11231,2,
11184,0,11232,2,
11183,10736,11233,0,
11185,0,11234,2,
11183,10779,11235,1,
9690,11186,11236,0,
11188,11189,11237,1,
11188,11189,11238,0,
6490,11190,11239,0,
11192,0,11240,2,
11191,0,11241,2,
6992,11192,11242,1,
11193,7399,11243,0,
11022,11199,11244,0,
11195,0,11245,2,
11064,11196,11246,0,
11197,0,11247,2,
11198,0,11248,2,
11201,0,11249,2,
9980,11203,11250,1,
11204,0,11251,2,
11200,0,11252,2,
11008,11202,11253,1,
11156,11205,11254,0,
10975,11207,11255,0,
11206,0,11256,2,
11161,11205,11257,0,
11208,0,11258,2,
7404,11209,11259,0,
10729,11215,11260,0,
11216,0,11261,2,
11210,10718,11262,0,
11211,0,11263,2,
11212,0,11264,2,
11157,11200,11265,1,
11052,11217,11266,0,
7408,11220,11267,0,
11218,0,11268,2,
7409,11221,11269,0,
7410,11223,11270,0,
6760,11225,11271,0,
10978,11206,11272,1,
11227,8250,11273,0,
11228,0,11274,2,
6193,11228,11275,0,
11230,8531,11276,0,
11228,6193,11277,1,
8025,11228,11278,0,
11232,8950,11279,0,
11233,0,11280,2,
11234,9509,11281,0,
11235,0,11282,2,
11235,11130,11283,1,
11236,0,11284,2,
11237,0,11285,2,
11238,0,11286,2,
11239,0,11287,2,
5512,11239,11288,1,
11194,11241,11289,0,
7398,11240,11290,0,
7244,11240,11291,0,
764,11242,11292,0,
258,11243,11293,1,
11244,0,11294,2,
9887,11247,11295,0,
11246,11245,11296,0,
11154,11249,11297,0,
11253,0,11298,2,
11157,11252,11299,0,
11250,0,11300,2,
10978,11256,11301,0,
11254,0,11302,2,
11255,0,11303,2,
762,11242,11304,0,
11204,11244,11305,1,
185,11259,11306,1,
10721,11262,11307,1,
10879,11260,11308,1,
11165,11263,11309,0,
11264,11263,11310,0,
9833,11253,11311,0,
11265,0,11312,2,
11054,11266,11313,1,
166,11269,11314,1,
757,11242,11315,0,
249,11267,11316,1,
767,11242,11317,0,
1551,11242,11318,0,
259,11270,11319,1,
11271,0,11320,2,
11272,0,11321,2,
8352,11273,11322,0,
11275,0,11323,2,
8023,11274,11324,0,
8456,11276,11325,0,
11277,0,11326,2,
11278,0,11327,2,
9055,11279,11328,0,
11280,10778,11329,0,
9511,11281,11330,0,
11282,11187,11331,0,
9766,11284,11332,0,
5512,11287,11333,0,
11288,0,11334,2,
11289,0,11335,2,
11290,0,11336,2,
11291,0,11337,2,
11293,10931,11338,0,
11292,0,11339,2,
11296,0,11340,2,
11251,11294,11341,0,
11295,0,11342,2,
11293,0,11343,2,
11291,6710,11344,0,
9762,11298,11345,0,
9758,11295,11346,1,
11297,0,11347,2,
11299,0,11348,2,
11304,0,11349,2,
11301,0,11350,2,
11026,11303,11351,0,
11302,11258,11352,0,
11306,11072,11353,1,
11305,10023,11354,0,
11250,11296,11355,1,
11306,11072,11356,0,
11309,0,11357,2,
11307,0,11358,2,
11308,0,11359,2,
11311,0,11360,2,
11305,0,11361,2,
10304,11313,11362,0,
9985,11307,11363,0,
10145,11308,11364,0,
11313,0,11365,2,
11317,0,11366,2,
11316,10982,11367,1,
11315,0,11368,2,
11314,11121,11369,1,
11318,0,11370,2,
11314,11121,11371,0,
11316,10936,11372,0,
11319,7270,11373,1,
11319,7270,11374,0,
7807,11322,11375,1,
11324,0,11376,2,
7913,11325,11377,1,
7944,11323,11378,0,
8159,11326,11379,0,
8966,11323,11380,0,
8966,11326,11381,0,
11326,8045,11382,0,
8159,11323,11383,0,
11329,0,11384,2,
8270,11328,11385,1,
8045,11323,11386,0,
8716,11330,11387,1,
11332,0,11388,2,
11331,0,11389,2,
11333,0,11390,2,
11334,11134,11391,0,
7401,11336,11392,0,
11248,11335,11393,0,
7483,11337,11394,0,
11338,0,11395,2,
11339,7252,11396,0,
11341,0,11397,2,
11343,10893,11398,0,
11300,11340,11399,0,
9830,11342,11400,0,
11346,0,11401,2,
11257,11347,11402,0,
11345,0,11403,2,
11344,0,11404,2,
11214,11348,11405,0,
11351,0,11406,2,
11028,11350,11407,0,
11349,6734,11408,0,
11354,0,11409,2,
11355,0,11410,2,
11337,7247,11411,0,
10144,11346,11412,0,
11356,0,11413,2,
9985,11358,11414,1,
11219,11357,11415,0,
10145,11359,11416,1,
11361,9983,11417,0,
10476,11355,11418,0,
10304,11365,11419,1,
11366,6762,11420,0,
11364,0,11421,2,
11367,0,11422,2,
11368,6763,11423,0,
11168,11351,11424,1,
11370,6768,11425,0,
11371,0,11426,2,
11372,0,11427,2,
11373,11320,11428,0,
11373,11271,11429,1,
11374,0,11430,2,
11363,0,11431,2,
11362,0,11432,2,
11375,0,11433,2,
11378,0,11434,2,
8459,11376,11435,0,
11379,0,11436,2,
11381,0,11437,2,
11380,0,11438,2,
11382,0,11439,2,
11385,10870,11440,1,
11383,0,11441,2,
11385,10870,11442,0,
11386,0,11443,2,
11387,0,11444,2,
11387,9574,11445,1,
5900,11390,11446,0,
11391,10999,11447,0,
11393,0,11448,2,
11392,0,11449,2,
11396,7255,11450,0,
11394,0,11451,2,
6715,11392,11452,1,
11213,11397,11453,0,
11400,0,11454,2,
11399,0,11455,2,
11398,0,11456,2,
11405,0,11457,2,
11352,11403,11458,0,
11402,0,11459,2,
10144,11401,11460,1,
7407,11408,11461,0,
11353,11405,11462,1,
11168,11406,11463,0,
11407,0,11464,2,
6368,11411,11465,1,
10476,11410,11466,1,
11409,11360,11467,0,
11412,0,11468,2,
11416,0,11469,2,
11414,0,11470,2,
11417,0,11471,2,
11418,0,11472,2,
7414,11420,11473,0,
11419,0,11474,2,
7413,11423,11475,0,
11424,0,11476,2,
7415,11425,11477,0,
11427,11031,11478,0,
11428,0,11479,2,
11429,0,11480,2,
11171,11407,11481,1,
8254,11434,11482,0,
11435,11327,11483,0,
11436,8155,11484,0,
11437,9278,11485,0,
9507,11438,11486,0,
11439,8699,11487,0,
11440,11384,11488,0,
11441,8535,11489,0,
8956,11443,11490,0,
11442,0,11491,2,
11384,11440,11492,1,
11444,9514,11493,0,
11445,11388,11494,0,
11445,11332,11495,1,
11446,0,11496,2,
11395,11448,11497,0,
7013,11449,11498,0,
258,11450,11499,1,
764,11452,11500,0,
7526,11451,11501,0,
11261,11455,11502,0,
9889,11454,11503,0,
11453,0,11504,2,
11460,0,11505,2,
11353,11457,11506,0,
11458,11459,11507,0,
757,11452,11508,0,
185,11461,11509,1,
11463,0,11510,2,
11171,11464,11511,0,
11462,0,11512,2,
11466,0,11513,2,
762,11465,11514,0,
767,11452,11515,0,
11470,11469,11516,0,
11363,11469,11517,0,
11212,11453,11518,1,
762,11452,11519,0,
767,11465,11520,0,
757,11465,11521,0,
166,11475,11522,1,
249,11473,11523,1,
1551,11465,11524,0,
259,11477,11525,1,
11478,0,11526,2,
11430,11479,11527,0,
11481,0,11528,2,
1551,11452,11529,0,
7807,11483,11530,1,
8227,11482,11531,0,
11484,8597,11532,0,
11485,9571,11533,0,
9406,11486,11534,0,
11487,9058,11535,0,
8357,11489,11536,0,
11488,0,11537,2,
8957,11490,11538,0,
11492,0,11539,2,
11493,0,11540,2,
11494,0,11541,2,
11495,0,11542,2,
5333,11496,11543,0,
11496,5333,11544,1,
11498,0,11545,2,
11497,0,11546,2,
11500,0,11547,2,
11499,0,11548,2,
11499,11115,11549,0,
11501,11404,11550,0,
11503,0,11551,2,
11310,11504,11552,0,
11502,0,11553,2,
9834,11503,11554,1,
11507,0,11555,2,
11508,0,11556,2,
11506,0,11557,2,
11222,11510,11558,0,
11509,11268,11559,1,
11511,0,11560,2,
11460,11502,11561,1,
11362,11513,11562,0,
11264,11504,11563,0,
11514,0,11564,2,
11517,0,11565,2,
11519,0,11566,2,
11515,0,11567,2,
11518,10184,11568,0,
11518,0,11569,2,
11509,11268,11570,0,
11520,0,11571,2,
11474,11513,11572,0,
11522,11321,11573,1,
11521,0,11574,2,
11523,11030,11575,1,
11524,0,11576,2,
11525,7417,11577,1,
11522,11321,11578,0,
11523,10983,11579,0,
11527,0,11580,2,
11525,7417,11581,0,
11529,0,11582,2,
7807,11531,11583,1,
11530,0,11584,2,
7913,11532,11585,1,
8716,11533,11586,1,
8716,11534,11587,1,
8270,11535,11588,1,
11491,11537,11589,0,
7913,11536,11590,1,
8270,11538,11591,1,
11540,11541,11592,0,
11543,0,11593,2,
7024,11545,11594,0,
11456,11546,11595,0,
258,11550,11596,1,
7405,11547,11597,0,
11549,0,11598,2,
11548,11070,11599,0,
11552,0,11600,2,
9892,11551,11601,0,
11505,11553,11602,0,
11413,11557,11603,0,
11556,7032,11604,0,
11554,0,11605,2,
11467,11555,11606,0,
11224,11560,11607,0,
11558,0,11608,2,
11562,0,11609,2,
11561,0,11610,2,
11563,0,11611,2,
11564,7269,11612,0,
11566,7043,11613,0,
11421,11565,11614,0,
10306,11554,11615,0,
11568,0,11616,2,
11567,7046,11617,0,
11369,11558,11618,1,
11570,0,11619,2,
11569,10147,11620,0,
10650,11561,11621,0,
11571,7276,11622,0,
11576,7281,11623,0,
11574,7278,11624,0,
11575,11478,11625,1,
11575,0,11626,2,
11577,11527,11627,1,
11578,0,11628,2,
11579,0,11629,2,
11577,11580,11630,0,
11581,0,11631,2,
11582,7071,11632,0,
11583,0,11633,2,
11587,0,11634,2,
11586,0,11635,2,
11588,11085,11636,1,
11588,11085,11637,0,
11589,0,11638,2,
11591,11285,11639,1,
11587,9767,11640,1,
11586,9768,11641,1,
11591,11237,11642,0,
11592,0,11643,2,
5513,11593,11644,0,
11367,11607,11645,1,
6405,11594,11646,1,
11595,0,11647,2,
11594,0,11648,2,
11596,11312,11649,1,
11599,0,11650,2,
258,11597,11651,1,
11602,0,11652,2,
11601,0,11653,2,
11415,11600,11654,0,
11596,11312,11655,0,
10306,11605,11656,1,
7265,11604,11657,0,
11559,11603,11658,1,
11606,0,11659,2,
11607,0,11660,2,
11369,11608,11661,0,
11603,0,11662,2,
7272,11612,11663,0,
11611,11226,11664,0,
10650,11610,11665,1,
11472,11609,11666,0,
7275,11617,11667,0,
11615,0,11668,2,
7274,11613,11669,0,
11618,0,11670,2,
11620,0,11671,2,
11621,0,11672,2,
7280,11622,11673,0,
11626,11526,11674,0,
7282,11623,11675,0,
7284,11624,11676,0,
11627,0,11677,2,
11629,11035,11678,0,
11630,0,11679,2,
11631,7529,11680,0,
7293,11632,11681,0,
11635,9768,11682,0,
11634,9767,11683,0,
11636,11589,11684,1,
11637,0,11685,2,
11640,0,11686,2,
11636,11638,11687,0,
11641,0,11688,2,
11641,11592,11689,1,
11642,0,11690,2,
11639,0,11691,2,
11644,0,11692,2,
166,11657,11693,1,
6742,11648,11694,0,
764,11646,11695,0,
11598,11647,11696,0,
11651,11512,11697,0,
11649,11650,11698,0,
11651,11512,11699,1,
9937,11653,11700,0,
11654,0,11701,2,
11468,11652,11702,0,
11655,0,11703,2,
11658,0,11704,2,
11471,11659,11705,0,
11656,0,11706,2,
11422,11660,11707,0,
11559,11662,11708,0,
11661,0,11709,2,
11414,11654,11710,1,
7048,11648,11711,0,
185,11663,11712,1,
11665,0,11713,2,
11666,0,11714,2,
11211,11664,11715,1,
185,11669,11716,1,
249,11667,11717,1,
762,11646,11718,0,
249,11673,11719,1,
11674,0,11720,2,
259,11675,11721,1,
166,11676,11722,1,
757,11646,11723,0,
11678,0,11724,2,
259,11681,11725,1,
11680,0,11726,2,
1551,11646,11727,0,
767,11646,11728,0,
11683,0,11729,2,
11682,0,11730,2,
11684,0,11731,2,
11132,11685,11732,0,
11687,0,11733,2,
11286,11690,11734,0,
11688,11643,11735,0,
11689,0,11736,2,
11692,5514,11737,0,
11692,5514,11738,1,
11694,0,11739,2,
11696,0,11740,2,
11695,0,11741,2,
11697,0,11742,2,
11699,0,11743,2,
11516,11701,11744,0,
11700,0,11745,2,
11702,0,11746,2,
10025,11700,11747,1,
11693,11645,11748,0,
11705,0,11749,2,
11426,11709,11750,0,
11707,0,11751,2,
11708,0,11752,2,
11470,11701,11753,0,
11711,0,11754,2,
11714,11713,11755,0,
11572,11713,11756,0,
11710,10527,11757,0,
10353,11715,11758,0,
11712,11476,11759,1,
11716,11670,11760,1,
11712,11476,11761,0,
11656,11702,11762,1,
11717,0,11763,2,
11480,11717,11764,0,
11718,0,11765,2,
11710,0,11766,2,
11716,11670,11767,0,
11719,0,11768,2,
11723,0,11769,2,
11715,0,11770,2,
11722,11528,11771,1,
11721,7062,11772,0,
11722,11528,11773,0,
11176,11719,11774,0,
11721,7291,11775,1,
11693,11645,11776,1,
11727,0,11777,2,
11728,0,11778,2,
11729,9838,11779,0,
11730,9839,11780,0,
11639,11732,11781,1,
11495,11734,11782,1,
11735,0,11783,2,
11734,0,11784,2,
11732,0,11785,2,
11737,0,11786,2,
11544,11738,11787,0,
11738,11334,11788,0,
11698,11740,11789,0,
11739,7033,11790,0,
7411,11741,11791,0,
11703,11742,11792,0,
11743,11462,11793,0,
11744,0,11794,2,
11706,11746,11795,0,
10063,11745,11796,0,
11748,0,11797,2,
11747,0,11798,2,
11616,11749,11799,0,
11750,0,11800,2,
11619,11752,11801,0,
11755,0,11802,2,
7277,11754,11803,0,
11757,0,11804,2,
11758,0,11805,2,
11753,0,11806,2,
10482,11747,11807,0,
11429,11763,11808,0,
11764,0,11809,2,
11761,11760,11810,0,
11762,0,11811,2,
11760,11759,11812,0,
11767,0,11813,2,
11761,0,11814,2,
11766,10480,11815,0,
11765,6786,11816,0,
11573,11750,11817,1,
11176,11768,11818,1,
11772,0,11819,2,
11650,11740,11820,0,
10819,11762,11821,0,
11769,6797,11822,0,
11773,0,11823,2,
11775,11680,11824,1,
11774,0,11825,2,
11775,0,11826,2,
11777,6818,11827,0,
11778,6823,11828,0,
11640,11780,11829,1,
11780,0,11830,2,
11779,0,11831,2,
11781,0,11832,2,
11542,11784,11833,0,
11691,11785,11834,0,
5712,11786,11835,0,
11447,11787,11836,0,
11788,11544,11837,0,
11789,0,11838,2,
258,11791,11839,1,
6420,11790,11840,1,
11793,0,11841,2,
11795,0,11842,2,
11796,0,11843,2,
11614,11794,11844,0,
11797,11751,11845,0,
10482,11798,11846,1,
11803,6035,11847,1,
11799,0,11848,2,
11801,0,11849,2,
11759,11801,11850,1,
11573,11800,11851,0,
11805,11804,11852,0,
6035,11803,11853,0,
11672,11802,11854,0,
11806,11431,11855,0,
11808,0,11856,2,
11810,0,11857,2,
10819,11811,11858,1,
11807,0,11859,2,
11815,0,11860,2,
7286,11816,11861,0,
11770,11804,11862,0,
11818,0,11863,2,
11817,0,11864,2,
11818,11678,11865,1,
11649,11820,11866,1,
11821,0,11867,2,
7290,11819,11868,0,
7288,11822,11869,0,
11825,11231,11870,0,
11826,11726,11871,0,
7298,11827,11872,0,
7299,11828,11873,0,
11831,9632,11874,1,
11686,11830,11875,0,
11831,9632,11876,0,
11833,0,11877,2,
11834,0,11878,2,
4529,11835,11879,1,
249,11873,11880,1,
11792,11838,11881,0,
11839,11704,11882,1,
764,11840,11883,0,
10104,11843,11884,0,
11839,11704,11885,0,
11844,0,11886,2,
11668,11842,11887,0,
11671,11848,11888,0,
11847,0,11889,2,
11845,0,11890,2,
11846,0,11891,2,
11850,0,11892,2,
11759,11849,11893,0,
11851,0,11894,2,
11812,11849,11895,0,
11870,11809,11896,0,
762,11840,11897,0,
11416,11855,11898,1,
11419,11844,11899,1,
11853,0,11900,2,
11858,0,11901,2,
11857,11813,11902,0,
762,11853,11903,0,
757,11840,11904,0,
11677,11856,11905,0,
185,11861,11906,1,
767,11840,11907,0,
764,11853,11908,0,
11862,10307,11909,0,
11625,11845,11910,1,
11863,11724,11911,0,
166,11869,11912,1,
757,11853,11913,0,
7607,11868,11914,1,
11703,11838,11915,0,
11868,0,11916,2,
11870,0,11917,2,
767,11853,11918,0,
11871,0,11919,2,
259,11872,11920,1,
1551,11840,11921,0,
11853,1551,11922,0,
11875,0,11923,2,
11876,0,11924,2,
11879,0,11925,2,
11841,11882,11926,0,
11883,0,11927,2,
11881,0,11928,2,
11885,0,11929,2,
11756,11886,11930,0,
10185,11884,11931,1,
11887,0,11932,2,
11625,11890,11933,0,
11888,0,11934,2,
11474,11886,11935,0,
11572,11886,11936,0,
11884,0,11937,2,
764,11889,11938,0,
11628,11894,11939,0,
11893,0,11940,2,
11899,10864,11941,0,
764,11900,11942,0,
11895,0,11943,2,
11896,0,11944,2,
757,11889,11945,0,
11897,0,11946,2,
10698,11898,11947,0,
11904,0,11948,2,
11898,0,11949,2,
11903,0,11950,2,
11846,11887,11951,1,
762,11900,11952,0,
11899,0,11953,2,
11907,0,11954,2,
11906,11864,11955,1,
11908,0,11956,2,
762,11889,11957,0,
11910,0,11958,2,
11906,11864,11959,0,
757,11900,11960,0,
11911,0,11961,2,
11914,0,11962,2,
11913,0,11963,2,
11915,0,11964,2,
7607,11916,11965,0,
767,11889,11966,0,
11918,0,11967,2,
11917,11480,11968,1,
11917,11480,11969,0,
11921,0,11970,2,
767,11900,11971,0,
1551,11889,11972,0,
11922,0,11973,2,
1551,11900,11974,0,
11836,11925,11975,0,
11927,6778,11976,0,
11926,11928,11977,0,
11931,0,11978,2,
11930,0,11979,2,
11891,11932,11980,0,
11933,0,11981,2,
11938,0,11982,2,
10185,11937,11983,0,
11852,11934,11984,0,
11936,0,11985,2,
11935,0,11986,2,
11814,11940,11987,0,
11939,0,11988,2,
11941,0,11989,2,
11946,6801,11990,0,
11902,11943,11991,0,
11905,11944,11992,0,
11945,0,11993,2,
11947,0,11994,2,
11942,0,11995,2,
11951,0,11996,2,
11771,11939,11997,1,
11950,1123,11998,0,
11948,7069,11999,0,
11957,0,12000,2,
11956,465,12001,0,
11953,10821,12002,0,
11952,0,12003,2,
11954,7072,12004,0,
11959,0,12005,2,
11968,11717,12006,1,
11912,11958,12007,1,
11960,0,12008,2,
11963,1124,12009,0,
10989,11951,12010,0,
11725,11962,12011,0,
11912,11958,12012,0,
11964,11743,12013,1,
11966,0,12014,2,
11965,0,12015,2,
11968,11717,12016,0,
11967,1126,12017,0,
11964,11699,12018,0,
11969,0,12019,2,
11725,11962,12020,1,
11970,7084,12021,0,
11971,0,12022,2,
11972,0,12023,2,
11973,2323,12024,0,
11974,0,12025,2,
11977,0,12026,2,
11976,7279,12027,0,
11854,11979,12028,0,
10654,11978,12029,0,
11980,0,12030,2,
10654,11978,12031,1,
11986,11432,12032,0,
11984,0,12033,2,
11666,11985,12034,0,
11982,790,12035,0,
11983,0,12036,2,
11981,11720,12037,0,
11771,11988,12038,0,
11760,11987,12039,1,
11990,7289,12040,0,
11991,0,12041,2,
11994,11989,12042,0,
11993,1085,12043,0,
11995,2296,12044,0,
11992,0,12045,2,
11949,11989,12046,0,
7074,11999,12047,0,
11998,6812,12048,0,
10989,11996,12049,1,
11997,0,12050,2,
7076,12004,12051,0,
11991,11955,12052,1,
12003,2297,12053,0,
7294,12000,12054,0,
12002,0,12055,2,
12001,6815,12056,0,
12008,2298,12057,0,
12013,0,12058,2,
12012,0,12059,2,
12011,0,12060,2,
12009,6816,12061,0,
12010,0,12062,2,
12007,0,12063,2,
12014,1093,12064,0,
12016,0,12065,2,
12017,6826,12066,0,
12018,0,12067,2,
7085,12021,12068,0,
12022,2310,12069,0,
12023,2642,12070,0,
12024,6837,12071,0,
12025,3233,12072,0,
249,12069,12073,1,
258,12027,12074,1,
11929,12026,12075,0,
12028,0,12076,2,
12029,0,12077,2,
11859,12030,12078,0,
12037,0,12079,2,
12035,7065,12080,0,
11665,12034,12081,1,
11860,12033,12082,0,
11466,12032,12083,1,
12038,0,12084,2,
12039,0,12085,2,
12046,10653,12086,0,
11909,12042,12087,0,
258,12044,12088,1,
11955,12041,12089,0,
12043,7075,12090,0,
11679,12045,12091,0,
185,12040,12092,1,
11865,12037,12093,1,
11858,12028,12094,1,
12049,0,12095,2,
185,12048,12096,1,
166,12047,12097,1,
258,12056,12098,1,
185,12053,12099,1,
185,12054,12100,1,
249,12051,12101,1,
12052,0,12102,2,
166,12057,12103,1,
166,12061,12104,1,
12015,12060,12105,0,
12064,7082,12106,0,
12067,11742,12107,0,
249,12066,12108,1,
12019,12065,12109,0,
259,12068,12110,1,
12070,7089,12111,0,
259,12071,12112,1,
259,12072,12113,1,
11627,12109,12114,1,
12075,0,12115,2,
12074,11892,12116,1,
12074,11892,12117,0,
12036,12077,12118,0,
12031,12078,12119,1,
11901,12076,12120,0,
11865,12079,12121,0,
12083,0,12122,2,
12078,0,12123,2,
258,12080,12124,1,
12082,0,12125,2,
11229,12081,12126,0,
12081,0,12127,2,
11823,12084,12128,0,
11824,12091,12129,1,
11036,12083,12130,0,
12092,12050,12131,1,
12088,0,12132,2,
12089,0,12133,2,
166,12090,12134,1,
12093,0,12135,2,
12086,0,12136,2,
12087,0,12137,2,
12096,12007,12138,0,
12092,12050,12139,0,
12091,0,12140,2,
12094,11433,12141,0,
12098,12102,12142,0,
12100,0,12143,2,
12098,12102,12144,1,
12094,0,12145,2,
12105,0,12146,2,
12096,12063,12147,1,
249,12106,12148,1,
11882,12107,12149,1,
12103,0,12150,2,
259,12111,12151,1,
12112,7530,12152,1,
12112,7530,12153,0,
12113,7304,12154,1,
12113,7095,12155,0,
12116,12115,12156,0,
12117,0,12157,2,
12120,0,12158,2,
12119,0,12159,2,
10394,12118,12160,1,
12042,12125,12161,0,
12124,12085,12162,1,
12121,0,12163,2,
12126,0,12164,2,
12031,12123,12165,0,
10990,12122,12166,0,
12124,12085,12167,0,
11180,12127,12168,0,
12118,0,12169,2,
12128,0,12170,2,
12130,0,12171,2,
12097,12135,12172,1,
12131,12088,12173,0,
12134,12006,12174,1,
12005,12133,12175,0,
12137,12055,12176,0,
12131,12132,12177,1,
12129,0,12178,2,
12141,0,12179,2,
12134,12006,12180,0,
12097,12135,12181,0,
12138,0,12182,2,
11824,12140,12183,0,
12139,0,12184,2,
12114,11880,12185,1,
12145,11375,12186,0,
12148,12020,12187,1,
12146,7715,12188,0,
12146,7715,12189,1,
12147,0,12190,2,
12148,12020,12191,0,
12149,0,12192,2,
12114,11880,12193,0,
12116,12075,12194,1,
12151,7301,12195,1,
12142,0,12196,2,
12151,7301,12197,0,
12153,0,12198,2,
12154,0,12199,2,
12155,0,12200,2,
12156,0,12201,2,
11867,12158,12202,0,
12160,0,12203,2,
11866,12159,12204,0,
12165,0,12205,2,
12166,12164,12206,0,
11961,12163,12207,0,
12161,0,12208,2,
12167,0,12209,2,
11866,12159,12210,1,
12168,0,12211,2,
12170,11776,12212,1,
10394,12169,12213,0,
12175,0,12214,2,
12099,12172,12215,0,
12177,0,12216,2,
12101,12178,12217,1,
12177,12175,12218,1,
12171,12164,12219,0,
11776,12170,12220,0,
12173,0,12221,2,
12181,0,12222,2,
12182,12059,12223,0,
12183,0,12224,2,
12101,12178,12225,0,
12180,0,12226,2,
12104,12185,12227,1,
12099,12172,12228,1,
12186,0,12229,2,
12189,11920,12230,1,
12188,0,12231,2,
12189,11920,12232,0,
12191,0,12233,2,
12104,12185,12234,0,
12193,0,12235,2,
12194,0,12236,2,
12197,0,12237,2,
12198,7609,12238,0,
12200,6841,12239,0,
12157,12201,12240,0,
12204,0,12241,2,
12202,0,12242,2,
10826,12203,12243,1,
10826,12203,12244,0,
12208,12136,12245,0,
12206,0,12246,2,
12207,0,12247,2,
12213,0,12248,2,
12210,0,12249,2,
12049,12202,12250,1,
12212,12100,12251,0,
12220,0,12252,2,
12212,12143,12253,1,
12184,12221,12254,0,
12219,12179,12255,0,
12215,0,12256,2,
12144,12218,12257,0,
12216,12214,12258,0,
12217,12103,12259,0,
12142,12218,12260,0,
12225,0,12261,2,
11919,12224,12262,0,
12223,0,12263,2,
12174,12207,12264,1,
11182,12210,12265,0,
12108,12230,12266,0,
12232,0,12267,2,
7784,12231,12268,0,
12234,0,12269,2,
12108,12230,12270,1,
12217,12150,12271,1,
12154,12238,12272,1,
12238,0,12273,2,
12239,12155,12274,1,
12274,6478,12275,0,
12239,12275,12276,1,
12240,0,12277,2,
12243,11377,12278,0,
12241,12205,12279,0,
12095,12242,12280,0,
12174,12247,12281,0,
12243,11377,12282,1,
12244,0,12283,2,
12246,12211,12284,0,
12245,12176,12285,0,
10438,12248,12286,0,
12251,0,12287,2,
12250,0,12288,2,
11182,12249,12289,1,
12259,0,12290,2,
12256,12222,12291,0,
12254,0,12292,2,
12258,0,12293,2,
12253,0,12294,2,
12260,0,12295,2,
12263,12228,12296,0,
12263,12228,12297,1,
12262,0,12298,2,
12264,0,12299,2,
11584,12250,12300,0,
12265,0,12301,2,
12253,12254,12302,1,
12266,0,12303,2,
7086,12268,12304,1,
12268,0,12305,2,
12269,12235,12306,0,
12271,0,12307,2,
12162,12240,12308,1,
12199,12273,12309,0,
12276,0,12310,2,
12162,12277,12311,0,
12013,12279,12312,1,
12279,0,12313,2,
12280,0,12314,2,
12278,0,12315,2,
12284,0,12316,2,
12285,0,12317,2,
12281,0,12318,2,
11039,12286,12319,1,
12287,12252,12320,0,
12289,0,12321,2,
11530,12288,12322,0,
12286,0,12323,2,
12293,12295,12324,0,
12290,12261,12325,0,
12291,0,12326,2,
12294,12292,12327,0,
12297,0,12328,2,
12296,0,12329,2,
12187,12298,12330,0,
12298,12187,12331,1,
12300,0,12332,2,
12264,12291,12333,1,
12303,12267,12334,0,
7086,12305,12335,0,
12304,0,12336,2,
12306,0,12337,2,
12271,12306,12338,1,
12308,0,12339,2,
12308,11539,12340,1,
12309,0,12341,2,
12110,12336,12342,1,
12311,0,12343,2,
12283,12315,12344,0,
12062,12314,12345,0,
12312,12282,12346,0,
12058,12313,12347,0,
12255,12317,12348,0,
12316,12179,12349,0,
12226,12318,12350,0,
11082,12323,12351,0,
12322,0,12352,2,
12320,0,12353,2,
12147,12320,12354,1,
12312,12282,12355,1,
12299,12326,12356,0,
12325,0,12357,2,
12330,0,12358,2,
12328,12329,12359,0,
12331,12325,12360,1,
12334,0,12361,2,
12335,0,12362,2,
12307,12337,12363,0,
12327,0,12364,2,
12110,12336,12365,0,
12339,11492,12366,0,
12333,0,12367,2,
12209,12343,12368,0,
12345,0,12369,2,
12344,0,12370,2,
12347,0,12371,2,
12346,0,12372,2,
12348,0,12373,2,
12227,12350,12374,1,
12349,0,12375,2,
12289,12345,12376,1,
12229,12352,12377,0,
12351,0,12378,2,
12190,12353,12379,0,
12350,0,12380,2,
12327,12354,12381,0,
12331,12357,12382,0,
12355,0,12383,2,
12302,12354,12384,0,
12344,12319,12385,1,
12359,0,12386,2,
12233,12358,12387,0,
12342,12073,12388,1,
7300,12362,12389,0,
12342,12073,12390,0,
12356,0,12391,2,
12365,0,12392,2,
12363,0,12393,2,
12366,0,12394,2,
12368,0,12395,2,
12372,12371,12396,0,
12319,12370,12397,0,
12321,12369,12398,0,
12376,11633,12399,0,
12373,12375,12400,0,
12374,0,12401,2,
12227,12380,12402,0,
12381,0,12403,2,
12376,0,12404,2,
12379,0,12405,2,
12382,0,12406,2,
12387,0,12407,2,
12270,12387,12408,1,
12385,0,12409,2,
12386,12333,12410,0,
12361,12388,12411,1,
12144,12368,12412,1,
12388,12361,12413,0,
12384,12297,12414,0,
12390,0,12415,2,
12389,0,12416,2,
12257,12395,12417,0,
12398,0,12418,2,
11585,12396,12419,1,
12397,0,12420,2,
12400,12377,12421,0,
12399,0,12422,2,
12356,12401,12423,0,
12396,0,12424,2,
12404,11583,12425,0,
12403,12405,12426,0,
12402,0,12427,2,
12360,12406,12428,0,
12410,12401,12429,0,
12408,0,12430,2,
12270,12407,12431,0,
12144,12395,12432,0,
12409,0,12433,2,
12412,0,12434,2,
12413,0,12435,2,
12415,12392,12436,0,
12416,12195,12437,1,
12195,12416,12438,0,
12417,0,12439,2,
12419,0,12440,2,
12378,12420,12441,0,
12301,12418,12442,0,
11585,12424,12443,0,
12423,0,12444,2,
12419,12192,12445,1,
12332,12422,12446,0,
12421,0,12447,2,
12426,12329,12448,0,
12425,0,12449,2,
12426,0,12450,2,
12428,0,12451,2,
12429,12338,12452,0,
12431,12411,12453,0,
12432,0,12454,2,
11731,12434,12455,0,
12437,12436,12456,1,
11684,12434,12457,1,
12436,0,12458,2,
12438,0,12459,2,
12431,0,12460,2,
12324,12439,12461,0,
12442,12383,12462,0,
12441,0,12463,2,
12440,12192,12464,0,
12442,0,12465,2,
12444,12427,12466,0,
12446,12447,12467,0,
12443,0,12468,2,
12445,0,12469,2,
12448,0,12470,2,
12297,12450,12471,0,
12451,12430,12472,0,
11283,12441,12473,1,
12453,0,12474,2,
12445,12433,12475,0,
12454,12196,12476,0,
12455,0,12477,2,
12456,0,12478,2,
12437,12458,12479,0,
12457,0,12480,2,
12237,12459,12481,0,
12461,0,12482,2,
12464,0,12483,2,
11283,12463,12484,0,
12462,0,12485,2,
12466,0,12486,2,
12409,12469,12487,0,
12355,12465,12488,0,
12467,0,12489,2,
12410,12470,12490,0,
12471,0,12491,2,
12472,12411,12492,0,
12475,0,12493,2,
12474,12435,12494,0,
12218,12476,12495,1,
12473,0,12496,2,
12302,12461,12497,1,
11733,12477,12498,0,
12479,0,12499,2,
12152,12481,12500,1,
12481,0,12501,2,
12384,12482,12502,0,
12484,0,12503,2,
12449,12485,12504,0,
12302,12482,12505,0,
12483,12468,12506,0,
12486,12338,12507,0,
12488,0,12508,2,
12487,0,12509,2,
12490,0,12510,2,
12414,12482,12511,0,
12491,12329,12512,0,
12492,0,12513,2,
12495,11832,12514,1,
12497,0,12515,2,
12495,0,12516,2,
12498,0,12517,2,
12500,0,12518,2,
12152,12501,12519,0,
12502,0,12520,2,
11590,12506,12521,1,
12505,0,12522,2,
12504,12489,12523,0,
11389,12503,12524,0,
12502,12410,12525,0,
12506,0,12526,2,
12507,0,12527,2,
12508,12509,12528,0,
12511,0,12529,2,
12510,12391,12530,0,
12494,12513,12531,0,
12514,12498,12532,1,
11782,12515,12533,0,
12516,11781,12534,0,
12514,12517,12535,0,
11782,12515,12536,1,
12519,0,12537,2,
12448,12520,12538,0,
12426,12520,12539,0,
12521,12194,12540,1,
12521,0,12541,2,
12524,0,12542,2,
12522,12364,12543,0,
12523,0,12544,2,
12527,12393,12545,0,
11590,12526,12546,0,
12525,0,12547,2,
12512,12529,12548,0,
12531,0,12549,2,
12340,12524,12550,1,
12532,0,12551,2,
12533,0,12552,2,
12534,0,12553,2,
12535,0,12554,2,
12538,0,12555,2,
12473,12540,12556,1,
12297,12539,12557,1,
12528,12544,12558,0,
12354,12543,12559,1,
12541,12236,12560,0,
12340,12542,12561,0,
12530,12547,12562,0,
12545,12406,12563,0,
12546,0,12564,2,
11874,12548,12565,1,
12496,12540,12566,0,
12550,0,12567,2,
12367,12548,12568,1,
12478,12549,12569,0,
11877,12552,12570,0,
11878,12553,12571,0,
12452,12555,12572,0,
12556,0,12573,2,
12557,0,12574,2,
12429,12555,12575,0,
12558,0,12576,2,
12559,0,12577,2,
12561,0,12578,2,
12560,0,12579,2,
12374,12562,12580,1,
12565,12367,12581,1,
12566,0,12582,2,
12568,11874,12583,0,
12559,11736,12584,1,
12571,0,12585,2,
12536,12571,12586,1,
12570,0,12587,2,
12572,0,12588,2,
12573,12493,12589,0,
11829,12574,12590,0,
12575,0,12591,2,
12579,12564,12592,0,
12577,11689,12593,0,
12394,12578,12594,0,
9894,12580,12595,0,
12493,12576,12596,0,
12580,0,12597,2,
12583,0,12598,2,
11829,12574,12599,1,
12584,12570,12600,1,
12586,0,12601,2,
12584,12587,12602,0,
12536,12585,12603,0,
12598,11924,12604,0,
9894,12597,12605,1,
12494,12588,12606,0,
12590,0,12607,2,
12563,12588,12608,0,
12589,12576,12609,0,
12466,12591,12610,0,
12545,12588,12611,0,
12593,0,12612,2,
12457,12594,12613,1,
12592,0,12614,2,
12550,12592,12615,1,
12595,0,12616,2,
12594,0,12617,2,
12596,12573,12618,0,
12600,0,12619,2,
12596,12556,12620,1,
12602,0,12621,2,
12603,0,12622,2,
12606,12563,12623,0,
12338,12610,12624,1,
11923,12607,12625,0,
12609,0,12626,2,
12608,0,12627,2,
12360,12611,12628,1,
12567,12614,12629,0,
12615,12613,12630,0,
11783,12612,12631,0,
12616,9938,12632,0,
12480,12617,12633,0,
12604,12605,12634,0,
12618,0,12635,2,
12605,0,12636,2,
12604,0,12637,2,
12620,0,12638,2,
12619,12585,12639,0,
12601,12619,12640,0,
12623,0,12641,2,
12472,12627,12642,0,
12627,12451,12643,0,
12582,12626,12644,0,
12581,12625,12645,1,
12624,0,12646,2,
12629,12613,12647,0,
7091,12628,12648,0,
12630,12551,12649,0,
12631,0,12650,2,
12633,12551,12651,0,
12625,0,12652,2,
12634,0,12653,2,
12635,12582,12654,0,
12629,0,12655,2,
12632,0,12656,2,
12628,0,12657,2,
12637,12636,12658,0,
12633,0,12659,2,
12639,12536,12660,0,
12599,12631,12661,1,
12637,12636,12662,1,
12569,12641,12663,0,
12645,0,12664,2,
12408,12643,12665,1,
9773,12646,12666,1,
12644,0,12667,2,
12642,0,12668,2,
12647,12551,12669,0,
12648,0,12670,2,
12651,0,12671,2,
12581,12652,12672,0,
9773,12646,12673,0,
12641,12549,12674,0,
12615,12654,12675,1,
12647,0,12676,2,
12658,0,12677,2,
7091,12657,12678,1,
12660,0,12679,2,
12661,0,12680,2,
12599,12650,12681,0,
12663,0,12682,2,
12649,12667,12683,0,
12665,0,12684,2,
12666,12632,12685,1,
12615,12667,12686,0,
12664,12650,12687,0,
12668,12460,12688,0,
12630,12667,12689,0,
12669,0,12690,2,
7303,12670,12691,0,
12673,0,12692,2,
12554,12671,12693,0,
12672,0,12694,2,
12666,12656,12695,0,
12675,0,12696,2,
12456,12674,12697,1,
12678,0,12698,2,
12621,12679,12699,0,
12681,0,12700,2,
12680,12664,12701,0,
12499,12682,12702,0,
12683,0,12703,2,
12686,0,12704,2,
12411,12688,12705,1,
12687,12599,12706,0,
7094,12684,12707,0,
12685,0,12708,2,
7094,12684,12709,1,
12691,0,12710,2,
12689,0,12711,2,
12695,0,12712,2,
12692,9842,12713,0,
12638,12696,12714,0,
12697,0,12715,2,
12620,12696,12716,1,
12702,0,12717,2,
12709,0,12718,2,
12690,12703,12719,0,
12706,0,12720,2,
12704,12655,12721,0,
12705,0,12722,2,
12707,0,12723,2,
12708,12653,12724,0,
12711,12676,12725,0,
12713,0,12726,2,
12678,12713,12727,1,
7097,12715,12728,0,
12710,12709,12729,0,
7097,12715,12730,1,
12678,12713,12731,0,
12716,0,12732,2,
12518,12717,12733,0,
12694,12720,12734,0,
12724,0,12735,2,
12719,12693,12736,0,
12710,12718,12737,1,
7305,12723,12738,0,
12613,12721,12739,1,
6843,12722,12740,1,
12725,12659,12741,0,
12717,12518,12742,1,
6843,12722,12743,0,
12698,12726,12744,0,
12729,0,12745,2,
12728,0,12746,2,
12731,0,12747,2,
12733,0,12748,2,
12712,12735,12749,0,
12739,0,12750,2,
12740,12738,12751,1,
12736,0,12752,2,
12734,12712,12753,0,
12737,12718,12754,0,
7098,12742,12755,0,
12738,0,12756,2,
12532,12741,12757,1,
12744,0,12758,2,
12586,12736,12759,1,
12743,0,12760,2,
12742,0,12761,2,
7102,12746,12762,0,
12737,0,12763,2,
12734,0,12764,2,
12739,12714,12765,1,
12537,12748,12766,0,
12640,12752,12767,0,
12751,0,12768,2,
12714,12750,12769,0,
12749,0,12770,2,
12601,12752,12771,0,
12754,0,12772,2,
12740,12756,12773,0,
12755,0,12774,2,
7098,12761,12775,1,
12758,12745,12776,0,
7306,12760,12777,0,
12762,0,12778,2,
12747,12763,12779,0,
12712,12758,12780,0,
12662,12764,12781,0,
12765,12716,12782,0,
12272,12766,12783,1,
12767,0,12784,2,
12770,12727,12785,0,
12769,12757,12786,0,
12772,12768,12787,0,
12771,0,12788,2,
7308,12774,12789,0,
12766,0,12790,2,
12773,0,12791,2,
12730,12777,12792,1,
12777,0,12793,2,
12775,0,12794,2,
12762,12775,12795,0,
12779,0,12796,2,
12780,12745,12797,0,
12781,0,12798,2,
12757,12769,12799,1,
12782,0,12800,2,
12783,0,12801,2,
12622,12788,12802,0,
12699,12784,12803,0,
12759,12786,12804,1,
12787,0,12805,2,
12272,12790,12806,0,
12786,12759,12807,0,
12776,12791,12808,0,
12789,0,12809,2,
12778,12794,12810,0,
12792,0,12811,2,
12795,0,12812,2,
12730,12793,12813,0,
12778,12794,12814,1,
12796,12745,12815,0,
12798,12677,12816,0,
12799,0,12817,2,
7307,12801,12818,1,
12803,0,12819,2,
12600,12802,12820,1,
12804,39,12821,0,
12805,12791,12822,0,
12806,0,12823,2,
12813,0,12824,2,
12810,0,12825,2,
7307,12801,12826,0,
12661,12803,12827,1,
12815,0,12828,2,
12811,12814,12829,0,
12813,12814,12830,0,
12782,12817,12831,0,
12804,23,12832,1,
12818,12789,12833,1,
12680,12819,12834,0,
12822,0,12835,2,
12820,12807,12836,1,
96,12821,12837,0,
12821,0,12838,2,
12818,12809,12839,0,
12341,12823,12840,0,
12824,12825,12841,0,
12826,0,12842,2,
12701,12819,12843,0,
12807,12820,12844,0,
12830,0,12845,2,
12831,12832,12846,0,
12831,0,12847,2,
12843,0,12848,2,
12833,0,12849,2,
12836,0,12850,2,
12811,12835,12851,0,
12837,0,12852,2,
12834,0,12853,2,
12310,12840,12854,1,
12838,107,12855,0,
12839,0,12856,2,
12841,0,12857,2,
12844,12827,12858,0,
7424,12842,12859,0,
12843,12662,12860,0,
12827,12844,12861,1,
12845,12825,12862,0,
12836,107,12863,1,
12846,0,12864,2,
12848,12677,12865,0,
12849,12812,12866,0,
12700,12853,12867,0,
12850,12852,12868,0,
12854,7310,12869,1,
12841,12856,12870,0,
12855,0,12871,2,
12734,12848,12872,0,
12854,7104,12873,0,
12859,0,12874,2,
12860,0,12875,2,
12829,12849,12876,0,
12861,0,12877,2,
12861,2367,12878,1,
12863,12821,12879,1,
12865,12753,12880,0,
12865,12734,12881,0,
12866,0,12882,2,
12645,12867,12883,1,
12868,0,12884,2,
12662,12872,12885,1,
12869,12859,12886,1,
12866,12857,12887,0,
12869,0,12888,2,
12873,0,12889,2,
12816,12875,12890,0,
12846,12879,12891,0,
12880,0,12892,2,
12881,0,12893,2,
12882,12856,12894,0,
12858,12883,12895,1,
12871,12884,12896,0,
12858,12883,12897,0,
12887,0,12898,2,
12885,0,12899,2,
12888,12874,12900,0,
7425,12889,12901,0,
12685,12890,12902,1,
12886,12849,12903,0,
12891,0,12904,2,
12785,12892,12905,0,
12724,12893,12906,0,
12895,3249,12907,0,
12894,0,12908,2,
12896,0,12909,2,
12895,0,12910,2,
12885,12897,12911,1,
12883,12899,12912,0,
12898,12856,12913,0,
12900,0,12914,2,
12901,0,12915,2,
6850,12901,12916,1,
12896,1130,12917,0,
12878,12896,12918,1,
12905,0,12919,2,
12906,0,12920,2,
12907,0,12921,2,
12886,12908,12922,0,
12910,2362,12923,0,
2367,12909,12924,0,
12912,12858,12925,0,
5007,12910,12926,0,
12916,0,12927,2,
6850,12915,12928,0,
12917,0,12929,2,
3249,12910,12930,1,
12911,5007,12931,1,
12891,12918,12932,0,
12808,12919,12933,0,
12712,12920,12934,0,
12797,12920,12935,0,
12919,12758,12936,0,
12902,12925,12937,1,
12911,12921,12938,0,
12924,0,12939,2,
12776,12919,12940,0,
12923,0,12941,2,
12925,12902,12942,0,
12926,0,12943,2,
7490,12927,12944,0,
12928,7490,12945,0,
12877,12929,12946,0,
12928,0,12947,2,
12928,7106,12948,0,
12932,0,12949,2,
12933,0,12950,2,
12727,12934,12951,1,
12935,0,12952,2,
12737,12936,12953,1,
12937,0,12954,2,
12938,0,12955,2,
4812,12941,12956,0,
12939,3249,12957,0,
12937,5705,12958,0,
12940,0,12959,2,
12945,0,12960,2,
12948,0,12961,2,
12946,0,12962,2,
12851,12950,12963,0,
12951,0,12964,2,
12952,12828,12965,0,
12954,5504,12966,0,
12876,12953,12967,0,
5325,12955,12968,0,
12958,0,12969,2,
12951,12942,12970,1,
6065,12954,12971,0,
12957,0,12972,2,
12956,0,12973,2,
12787,12959,12974,0,
7572,12960,12975,0,
12961,7314,12976,0,
12962,12939,12977,0,
5705,12954,12978,1,
12963,0,12979,2,
12963,12866,12980,0,
12942,12964,12981,0,
12963,12814,12982,0,
12751,12965,12983,1,
12966,0,12984,2,
12968,12943,12985,0,
12968,0,12986,2,
12974,0,12987,2,
12926,12972,12988,0,
12971,5504,12989,0,
12969,12970,12990,0,
12973,12911,12991,0,
12971,0,12992,2,
12977,3249,12993,0,
12977,0,12994,2,
12970,0,12995,2,
12870,12979,12996,0,
12980,0,12997,2,
12981,12768,12998,0,
12981,12953,12999,1,
12983,0,13000,2,
12982,0,13001,2,
6215,12984,13002,0,
12981,12953,13003,0,
12924,12986,13004,0,
12985,0,13005,2,
12988,0,13006,2,
12991,0,13007,2,
12987,12791,13008,0,
12989,0,13009,2,
12990,0,13010,2,
12824,12979,13011,0,
12993,0,13012,2,
2362,12994,13013,0,
12994,12930,13014,1,
6065,12995,13015,1,
12996,0,13016,2,
12913,12997,13017,0,
12967,12998,13018,0,
13003,13000,13019,0,
12862,13001,13020,0,
12999,0,13021,2,
13002,0,13022,2,
12983,13003,13023,1,
13004,0,13024,2,
12946,13005,13025,0,
12792,13008,13026,1,
13010,6485,13027,0,
13009,13006,13028,0,
7108,12999,13029,0,
12814,13011,13030,1,
13012,12910,13031,0,
13013,0,13032,2,
13014,0,13033,2,
12922,13016,13034,0,
12886,13017,13035,1,
12833,13020,13036,1,
13019,12829,13037,0,
7313,13021,13038,0,
13022,12970,13039,0,
13025,0,13040,2,
7533,13023,13041,0,
13023,0,13042,2,
13007,13024,13043,0,
13026,13019,13044,1,
13027,12992,13045,0,
13029,0,13046,2,
13019,13026,13047,0,
13031,0,13048,2,
12932,13033,13049,0,
7108,13021,13050,1,
13034,0,13051,2,
13035,13018,13052,1,
13036,13037,13053,1,
13038,7533,13054,0,
13038,13023,13055,0,
13039,0,13056,2,
7573,13042,13057,0,
13028,13040,13058,0,
13041,0,13059,2,
13044,7716,13060,0,
12903,13037,13061,0,
13044,0,13062,2,
13030,13047,13063,1,
13043,13040,13064,0,
13045,0,13065,2,
13040,13006,13066,0,
13032,13048,13067,0,
13042,7573,13068,1,
13044,7716,13069,1,
13049,0,13070,2,
13051,12914,13071,0,
13052,0,13072,2,
13053,0,13073,2,
13054,0,13074,2,
13055,0,13075,2,
13043,13056,13076,0,
13057,0,13077,2,
13045,13056,13078,0,
13060,0,13079,2,
7837,13063,13080,0,
13052,8463,13081,0,
13062,7682,13082,0,
13064,13028,13083,0,
13066,13043,13084,0,
12931,13067,13085,1,
13063,0,13086,2,
13052,8536,13087,1,
13071,0,13088,2,
13072,8536,13089,0,
13074,13075,13090,0,
13058,13076,13091,0,
12916,13071,13092,1,
13046,13077,13093,0,
13078,0,13094,2,
13082,0,13095,2,
13081,0,13096,2,
13083,0,13097,2,
13084,5705,13098,0,
13084,0,13099,2,
13085,0,13100,2,
7837,13086,13101,1,
13073,8144,13102,1,
12944,13088,13103,0,
13089,0,13104,2,
12927,13088,13105,0,
13090,13059,13106,0,
13091,0,13107,2,
13092,13061,13108,1,
13061,13092,13109,0,
13093,13079,13110,0,
13097,13065,13111,0,
13098,0,13112,2,
13099,5504,13113,0,
13099,12978,13114,1,
13049,13100,13115,0,
13103,0,13116,2,
8027,13104,13117,0,
13073,13104,13118,0,
13105,0,13119,2,
13105,7106,13120,0,
13106,0,13121,2,
13094,13107,13122,0,
13108,0,13123,2,
8833,13108,13124,0,
13109,7106,13125,0,
13111,0,13126,2,
12954,13112,13127,0,
13113,0,13128,2,
13114,0,13129,2,
13115,0,13130,2,
12975,13116,13131,0,
13117,0,13132,2,
13118,0,13133,2,
13119,12947,13134,0,
13120,0,13135,2,
13118,8027,13136,0,
13121,13079,13137,0,
8959,13123,13138,0,
13122,13110,13139,0,
13124,0,13140,2,
13126,13056,13141,0,
13127,0,13142,2,
13115,13129,13143,0,
8833,13123,13144,1,
13131,0,13145,2,
13132,13133,13146,0,
7106,13134,13147,1,
12976,13135,13148,0,
13136,0,13149,2,
13137,0,13150,2,
13139,0,13151,2,
13138,0,13152,2,
6851,13131,13153,1,
13138,9287,13154,0,
13141,7108,13155,0,
13141,0,13156,2,
13128,13142,13157,0,
13050,13141,13158,1,
13143,0,13159,2,
6851,13145,13160,0,
13146,0,13161,2,
13147,13109,13162,1,
13149,13096,13163,0,
7426,13148,13164,1,
13150,13095,13165,0,
13153,0,13166,2,
13152,9412,13167,0,
13154,0,13168,2,
13155,0,13169,2,
7313,13156,13170,0,
13015,13157,13171,1,
13160,0,13172,2,
13063,13161,13173,0,
13080,13161,13174,0,
7837,13161,13175,0,
13162,0,13176,2,
13165,13151,13177,0,
13164,0,13178,2,
13167,0,13179,2,
13164,13125,13180,1,
13168,9699,13181,0,
13169,13021,13182,0,
13170,0,13183,2,
13143,13171,13184,0,
13162,9412,13185,1,
7109,13172,13186,0,
13175,0,13187,2,
13173,0,13188,2,
13174,0,13189,2,
13176,9412,13190,0,
13125,13178,13191,0,
13177,0,13192,2,
13179,13162,13193,0,
13180,9897,13194,0,
13177,7890,13195,0,
13182,0,13196,2,
13184,13158,13197,0,
9635,13180,13198,1,
13101,13177,13199,1,
13184,0,13200,2,
13186,0,13201,2,
13163,13189,13202,0,
13187,13188,13203,0,
6489,13186,13204,1,
13190,0,13205,2,
13191,13166,13206,0,
13123,13192,13207,0,
13153,13191,13208,1,
8959,13192,13209,0,
13193,0,13210,2,
13194,0,13211,2,
13195,0,13212,2,
7837,13192,13213,0,
13183,13196,13214,0,
13197,0,13215,2,
6489,13201,13216,0,
13202,0,13217,2,
13203,0,13218,2,
13204,13206,13219,1,
13140,13205,13220,0,
13208,9897,13221,0,
13180,13208,13222,0,
9635,13208,13223,0,
13204,0,13224,2,
13181,13210,13225,0,
13206,13204,13226,1,
13210,13168,13227,0,
13212,13063,13228,0,
13213,0,13229,2,
13214,7573,13230,0,
13214,0,13231,2,
13208,9941,13232,1,
13216,0,13233,2,
13218,13205,13234,0,
13217,13140,13235,0,
13218,13192,13236,0,
13220,13217,13237,0,
13219,10066,13238,0,
13222,0,13239,2,
13223,0,13240,2,
13221,0,13241,2,
13206,13224,13242,0,
13226,0,13243,2,
13207,13218,13244,0,
13209,13218,13245,0,
13228,0,13246,2,
13230,0,13247,2,
13231,7533,13248,0,
13231,13068,13249,1,
13226,10222,13250,0,
13226,10106,13251,1,
7110,13233,13252,0,
13234,13207,13253,0,
13234,13209,13254,0,
13236,13220,13255,0,
13235,13205,13256,0,
13237,0,13257,2,
13238,0,13258,2,
9988,13240,13259,0,
13211,13239,13260,0,
13243,10106,13261,0,
13245,13205,13262,0,
13244,13205,13263,0,
13246,13229,13264,0,
13235,0,13265,2,
13245,0,13266,2,
13244,0,13267,2,
13023,13247,13268,0,
13248,0,13269,2,
13236,0,13270,2,
13197,13249,13271,0,
13252,0,13272,2,
13254,0,13273,2,
13253,0,13274,2,
13256,0,13275,2,
13255,0,13276,2,
6854,13252,13277,1,
13225,13257,13278,0,
10262,13258,13279,0,
13260,13241,13280,0,
13259,0,13281,2,
13261,0,13282,2,
13262,0,13283,2,
13263,0,13284,2,
13264,8144,13285,0,
13268,0,13286,2,
13267,13265,13287,0,
13264,0,13288,2,
13266,13152,13289,0,
13202,13270,13290,0,
13271,13199,13291,0,
13271,0,13292,2,
6854,13272,13293,0,
13227,13275,13294,0,
13274,13273,13295,0,
13276,13241,13296,0,
13279,0,13297,2,
13277,13242,13298,1,
13277,0,13299,2,
13280,0,13300,2,
13283,13284,13301,0,
13278,13276,13302,0,
13285,0,13303,2,
13287,13289,13304,0,
13269,13286,13305,0,
8027,13288,13306,0,
13144,13290,13307,1,
13288,13102,13308,1,
13293,0,13309,2,
13296,13278,13310,0,
13294,0,13311,2,
13295,0,13312,2,
13298,13297,13313,0,
13242,13299,13314,0,
13298,13282,13315,0,
13294,13301,13316,0,
13302,0,13317,2,
13073,13303,13318,0,
13306,0,13319,2,
13185,13304,13320,1,
13069,13305,13321,1,
13308,0,13322,2,
13298,10262,13323,1,
6855,13309,13324,0,
13281,13311,13325,0,
13310,0,13326,2,
13312,13281,13327,0,
13313,0,13328,2,
13315,0,13329,2,
13314,0,13330,2,
13313,10487,13331,0,
13316,0,13332,2,
13318,0,13333,2,
13180,13317,13334,0,
13321,0,13335,2,
13320,13307,13336,0,
13324,0,13337,2,
13326,13300,13338,0,
6493,13324,13339,1,
13327,0,13340,2,
13325,0,13341,2,
10440,13328,13342,0,
13329,10312,13343,0,
13331,0,13344,2,
9635,13332,13345,0,
13319,13333,13346,0,
13334,0,13347,2,
13198,13332,13348,1,
13291,13335,13349,0,
13271,13335,13350,0,
6493,13337,13351,0,
13339,13314,13352,1,
13341,13340,13353,0,
13338,0,13354,2,
13342,0,13355,2,
13343,0,13356,2,
10573,13344,13357,0,
13345,0,13358,2,
13336,13348,13359,0,
13087,13346,13360,1,
13349,13322,13361,0,
13350,13199,13362,0,
13350,0,13363,2,
13351,0,13364,2,
10106,13354,13365,0,
13353,13354,13366,0,
13352,0,13367,2,
13352,13355,13368,0,
13358,13347,13369,0,
13352,10487,13370,1,
13359,13360,13371,0,
13361,13360,13372,0,
13362,0,13373,2,
13361,0,13374,2,
7111,13364,13375,0,
13365,13353,13376,0,
13366,0,13377,2,
13367,10440,13378,0,
13368,0,13379,2,
13251,13366,13380,1,
13232,13369,13381,1,
13371,13361,13382,0,
13372,13307,13383,0,
13372,0,13384,2,
13375,13330,13385,0,
13356,13377,13386,0,
13376,0,13387,2,
13378,0,13388,2,
13379,13344,13389,0,
13357,13379,13390,0,
13377,10066,13391,0,
13361,13380,13392,0,
13371,13381,13393,0,
13382,13381,13394,0,
13382,0,13395,2,
13383,13320,13396,0,
13383,0,13397,2,
6494,13385,13398,1,
13387,13388,13399,0,
13250,13388,13400,0,
13386,13388,13401,0,
13386,0,13402,2,
13250,13387,13403,0,
13389,0,13404,2,
13390,0,13405,2,
13226,13387,13406,0,
13391,0,13407,2,
13393,13392,13408,0,
13394,13380,13409,0,
13394,0,13410,2,
13396,0,13411,2,
13398,0,13412,2,
13400,13387,13413,0,
13399,13250,13414,0,
13401,0,13415,2,
13402,13328,13416,0,
10614,13404,13417,0,
13398,13405,13418,0,
13403,0,13419,2,
13398,10614,13420,1,
13406,0,13421,2,
13409,0,13422,2,
13412,10573,13423,0,
13414,0,13424,2,
13389,13415,13425,0,
13416,13419,13426,0,
13418,0,13427,2,
13417,0,13428,2,
13407,13421,13429,0,
13423,0,13430,2,
13425,13424,13431,0,
13427,13428,13432,0,
13370,13426,13433,1,
13323,13429,13434,1,
13401,13430,13435,0,
13413,13430,13436,0,
13420,13431,13437,1,
11975,13432,13438,0,
13432,10999,13439,0,
13433,0,13440,2,
13432,10781,13441,0,
13408,13434,13442,0,
13432,11447,13443,0,
13436,0,13444,2,
13435,0,13445,2,
13437,0,13446,2,
13439,11134,13447,0,
13442,13440,13448,0,
13442,0,13449,2,
13444,13445,13450,0,
13440,13446,13451,0,
13448,0,13452,2,
13450,13432,13453,0,
13438,13450,13454,0,
13439,13450,13455,0,
13441,13450,13456,0,
13451,13442,13457,0,
13447,13450,13458,0,
13443,13450,13459,0,
10781,13453,13460,1,
11088,13455,13461,1,
13459,11544,13462,1,
10908,13456,13463,1,
13454,0,13464,2,
11288,13458,13465,1,
13459,11787,13466,0,
13459,11544,13467,0,
13457,0,13468,2,
13460,0,13469,2,
3787,13464,13470,0,
13462,0,13471,2,
13457,13463,13472,0,
11879,13466,13473,1,
11738,13467,13474,1,
13469,13461,13475,0,
13470,13395,13476,0,
13470,13410,13477,0,
13471,13465,13478,0,
13457,13469,13479,0,
13470,13422,13480,0,
13470,13452,13481,0,
13470,13411,13482,0,
13470,13397,13483,0,
13470,13200,13484,0,
13470,13292,13485,0,
13470,13373,13486,0,
13470,13374,13487,0,
13470,13215,13488,0,
13470,13384,13489,0,
13470,13159,13490,0,
13470,13363,13491,0,
13470,13130,13492,0,
13470,13070,13493,0,
13470,12949,13494,0,
13470,12904,13495,0,
13470,12800,13496,0,
13470,13468,13497,0,
13470,12864,13498,0,
13470,12847,13499,0,
13470,12732,13500,0,
13449,13470,13501,0,
13320,13483,13502,1,
13475,13472,13503,0,
13479,13463,13504,0,
13381,13476,13505,1,
13380,13477,13506,1,
13434,13480,13507,1,
13479,0,13508,2,
13437,13481,13509,1,
13348,13482,13510,1,
13158,13484,13511,1,
13085,13493,13512,1,
13440,13501,13513,1,
12918,13495,13514,1,
12832,13499,13515,1,
13308,13486,13516,1,
13321,13485,13517,1,
13171,13490,13518,1,
13249,13488,13519,1,
13307,13489,13520,1,
13360,13487,13521,1,
13199,13491,13522,1,
13014,13494,13523,1,
13114,13492,13524,1,
12799,13496,13525,1,
13460,13497,13526,1,
12879,13498,13527,1,
12765,13500,13528,1,
13528,0,13529,2,
13478,13503,13530,0,
11837,13503,13531,0,
13503,13465,13532,0,
13506,13505,13533,0,
13503,0,13534,2,
13504,0,13535,2,
13470,13508,13536,0,
13509,0,13537,2,
13510,13502,13538,0,
13511,0,13539,2,
13526,0,13540,2,
13514,0,13541,2,
13515,0,13542,2,
13516,0,13543,2,
13517,0,13544,2,
13521,13519,13545,0,
13512,0,13546,2,
13524,0,13547,2,
13523,0,13548,2,
13519,0,13549,2,
13520,0,13550,2,
13527,0,13551,2,
13518,0,13552,2,
13522,0,13553,2,
13525,0,13554,2,
13514,13515,13555,0,
13528,13527,13556,0,
13511,13521,13557,0,
13521,0,13558,2,
13532,0,13559,2,
13531,0,13560,2,
13530,0,13561,2,
13533,13507,13562,0,
13540,13513,13563,0,
13470,13535,13564,0,
13470,13534,13565,0,
13463,13536,13566,1,
13518,13544,13567,0,
13520,13543,13568,0,
13547,13546,13569,0,
13548,13514,13570,0,
13540,13507,13571,0,
13537,13513,13572,0,
13554,13520,13573,0,
13543,13522,13574,0,
13544,13519,13575,0,
13548,13547,13576,0,
13546,13518,13577,0,
13556,13557,13578,0,
13470,13560,13579,0,
13470,13561,13580,0,
13470,13559,13581,0,
13562,13563,13582,0,
13461,13564,13583,1,
13465,13565,13584,1,
13537,13566,13585,0,
13545,13567,13586,0,
13568,13522,13587,0,
13570,13569,13588,0,
13571,13572,13589,0,
13573,13555,13590,0,
13575,13574,13591,0,
13577,13576,13592,0,
13462,13581,13593,1,
13473,13579,13594,1,
13474,13580,13595,1,
13584,13583,13596,0,
13585,13538,13597,0,
13586,13587,13598,0,
13587,0,13599,2,
13588,0,13600,2,
13592,13578,13601,0,
13591,13590,13602,0,
13602,13601,13603,0,
13595,0,13604,2,
13593,0,13605,2,
13582,13594,13606,0,
13598,13511,13607,0,
13598,0,13608,2,
13606,13605,13609,0,
13604,13596,13610,0,
13603,0,13611,2,
13607,0,13612,2,
13594,13604,13613,0,
13605,13566,13614,0,
13610,13597,13615,0,
13539,13609,13616,0,
13609,13603,13617,0,
13609,13523,13618,0,
13609,13611,13619,0,
13609,13512,13620,0,
13609,13599,13621,0,
13609,13600,13622,0,
13609,13524,13623,0,
13609,13541,13624,0,
13609,13542,13625,0,
13609,13551,13626,0,
13614,13584,13627,0,
13616,13615,13628,0,
13619,13615,13629,0,
13627,13613,13630,0,
13615,13609,13631,0,
13621,13615,13632,0,
13620,13615,13633,0,
13622,13615,13634,0,
13623,13615,13635,0,
13624,13615,13636,0,
13625,13615,13637,0,
13617,13615,13638,0,
13626,13615,13639,0,
13618,13615,13640,0,
13529,13629,13641,0,
13628,0,13642,2,
13629,0,13643,2,
13638,0,13644,2,
13631,13612,13645,0,
13629,13608,13646,0,
13629,13525,13647,0,
13550,12732,13648,1,
13648,13629,13649,0,
13550,13649,13650,1,
13629,13549,13651,0,
13633,0,13652,2,
13632,0,13653,2,
13558,13629,13654,0,
13634,0,13655,2,
13635,0,13656,2,
13629,12716,13657,0,
13636,0,13658,2,
13629,13553,13659,0,
13637,0,13660,2,
13629,13517,13661,0,
13638,12732,13662,0,
13629,13550,13663,0,
13629,13516,13664,0,
13629,13552,13665,0,
13639,0,13666,2,
13640,0,13667,2,
13513,13667,13668,0,
13641,0,13669,2,
13583,13642,13670,0,
13630,13644,13671,0,
13643,13516,13672,0,
13645,0,13673,2,
13549,13643,13674,0,
13643,13542,13675,0,
13646,0,13676,2,
13524,13643,13677,0,
13651,0,13678,2,
13647,0,13679,2,
13643,13551,13680,0,
13537,13652,13681,0,
13654,0,13682,2,
13643,13517,13683,0,
12732,13643,13684,0,
13613,13653,13685,0,
13589,13655,13686,0,
13539,13643,13687,0,
13643,13525,13688,0,
13540,13656,13689,0,
13643,13520,13690,0,
13658,13507,13691,0,
13643,13553,13692,0,
13659,0,13693,2,
13661,0,13694,2,
13660,13505,13695,0,
13663,0,13696,2,
13662,0,13697,2,
13552,13643,13698,0,
13664,0,13699,2,
13643,13529,13700,0,
13523,13643,13701,0,
13558,13643,13702,0,
13512,13643,13703,0,
13665,0,13704,2,
13541,13643,13705,0,
13666,13506,13706,0,
13670,13671,13707,0,
13668,0,13708,2,
13583,13673,13709,0,
13584,13678,13710,0,
13510,13679,13711,0,
13706,0,13712,2,
13685,13682,13713,0,
13681,0,13714,2,
13691,0,13715,2,
13689,0,13716,2,
13695,0,13717,2,
13694,13605,13718,0,
13696,13697,13719,0,
13699,13594,13720,0,
13502,13669,13721,0,
13704,13566,13722,0,
13709,13671,13723,0,
13721,0,13724,2,
13717,13676,13725,0,
13711,0,13726,2,
13712,13676,13727,0,
13716,13676,13728,0,
13714,13676,13729,0,
13719,13682,13730,0,
13702,13703,13731,1,
13731,13723,13732,0,
13702,13732,13733,1,
13713,13686,13734,1,
13734,13723,13735,0,
13713,13735,13736,1,
13723,0,13737,2,
13723,13708,13738,0,
13692,13705,13739,1,
13739,13723,13740,0,
13692,13740,13741,1,
13675,13723,13742,0,
13677,13723,13743,0,
13725,13707,13744,0,
13723,13552,13745,0,
13684,13723,13746,0,
13680,13723,13747,0,
13687,13723,13748,0,
13723,13517,13749,0,
13723,13558,13750,0,
13689,13657,13751,1,
13751,13723,13752,0,
13689,13752,13753,1,
13690,13723,13754,0,
13688,13723,13755,0,
13672,13723,13756,0,
13692,13723,13757,0,
13723,13715,13758,0,
13727,13707,13759,0,
13723,13643,13760,0,
13729,13707,13761,0,
13728,13707,13762,0,
13723,13726,13763,0,
13723,13549,13764,0,
13700,13723,13765,0,
13723,13724,13766,0,
13708,13723,13767,0,
13672,13701,13768,1,
13768,13723,13769,0,
13672,13769,13770,1,
13736,13644,13771,0,
13737,13643,13772,0,
13738,0,13773,2,
13674,13737,13774,0,
13650,13737,13775,0,
13742,0,13776,2,
13743,0,13777,2,
13744,0,13778,2,
13683,13737,13779,0,
13737,13724,13780,0,
13677,13737,13781,0,
13746,0,13782,2,
13747,0,13783,2,
13714,13737,13784,0,
13726,13737,13785,0,
13712,13737,13786,0,
13745,0,13787,2,
13749,0,13788,2,
13750,0,13789,2,
13687,13737,13790,0,
13748,0,13791,2,
13753,0,13792,2,
13755,0,13793,2,
13754,0,13794,2,
13715,13737,13795,0,
13737,13708,13796,0,
13756,0,13797,2,
13757,0,13798,2,
13758,0,13799,2,
13629,13737,13800,0,
13759,0,13801,2,
13762,0,13802,2,
13761,0,13803,2,
13760,0,13804,2,
13717,13737,13805,0,
13764,0,13806,2,
13763,0,13807,2,
13698,13737,13808,0,
13767,0,13809,2,
13765,0,13810,2,
13766,0,13811,2,
13670,13807,13812,0,
13792,13794,13813,0,
13719,13802,13814,0,
13771,0,13815,2,
13772,13644,13816,0,
13722,13811,13817,0,
13512,13772,13818,0,
13774,0,13819,2,
13775,0,13820,2,
13772,13512,13821,0,
13710,13778,13822,0,
13781,0,13823,2,
13779,0,13824,2,
13780,0,13825,2,
13786,0,13826,2,
13784,0,13827,2,
13785,0,13828,2,
13790,0,13829,2,
13771,13741,13830,0,
13771,13770,13831,0,
13796,0,13832,2,
13795,0,13833,2,
13772,13529,13834,0,
13771,13525,13835,0,
13772,13525,13836,0,
13772,13523,13837,0,
13584,13778,13838,0,
13604,13799,13839,0,
13771,13733,13840,0,
13772,13736,13841,0,
13800,0,13842,2,
13718,13801,13843,0,
13720,13809,13844,0,
13805,0,13845,2,
13803,13802,13846,0,
13808,0,13847,2,
13832,13797,13848,0,
13845,13806,13849,0,
13843,0,13850,2,
13846,13730,13851,0,
13818,13815,13852,0,
13841,13542,13853,0,
13816,120,13854,0,
13813,0,13855,2,
13841,13541,13856,0,
13817,0,13857,2,
13816,0,13858,2,
13776,13819,13859,0,
13820,13777,13860,0,
13815,13770,13861,0,
13821,13771,13862,0,
13815,13741,13863,0,
13822,0,13864,2,
13783,13824,13865,0,
13815,13733,13866,0,
13825,13787,13867,0,
13782,13823,13868,0,
13826,13788,13869,0,
13827,13789,13870,0,
13828,13791,13871,0,
13793,13829,13872,0,
13830,0,13873,2,
13813,13815,13874,0,
13831,0,13875,2,
13833,13798,13876,0,
13523,13815,13877,0,
13815,13541,13878,0,
13837,13771,13879,0,
13838,13678,13880,0,
13839,13693,13881,0,
13840,0,13882,2,
13841,13551,13883,0,
13842,13804,13884,0,
13810,13847,13885,0,
13812,0,13886,2,
13858,120,13887,0,
13812,13848,13888,1,
13888,13771,13889,0,
13812,13889,13890,1,
13850,13771,13891,0,
13884,0,13892,2,
13852,0,13893,2,
13853,0,13894,2,
13854,0,13895,2,
13771,13886,13896,0,
13843,13855,13897,1,
13897,13771,13898,0,
13843,13898,13899,1,
13851,13815,13900,0,
13856,0,13901,2,
13849,0,13902,2,
13859,0,13903,2,
13861,0,13904,2,
13860,0,13905,2,
13862,0,13906,2,
13863,0,13907,2,
13864,13736,13908,0,
13736,13850,13909,0,
13867,0,13910,2,
13865,0,13911,2,
13866,0,13912,2,
13868,0,13913,2,
13871,0,13914,2,
13870,0,13915,2,
13869,0,13916,2,
13872,0,13917,2,
13874,0,13918,2,
13876,0,13919,2,
13848,0,13920,2,
13877,13772,13921,0,
13815,13857,13922,0,
13878,13772,13923,0,
13879,0,13924,2,
13877,0,13925,2,
13880,0,13926,2,
13881,0,13927,2,
13883,0,13928,2,
13885,0,13929,2,
13891,0,13930,2,
13812,13900,13931,0,
13815,13929,13932,0,
13896,0,13933,2,
13903,13815,13934,0,
13771,13929,13935,0,
13905,13815,13936,0,
13909,0,13937,2,
13908,0,13938,2,
13910,13815,13939,0,
13771,13913,13940,0,
13900,13911,13941,0,
13914,13815,13942,0,
13771,13916,13943,0,
13915,13815,13944,0,
13771,13902,13945,0,
13900,13741,13946,0,
13771,13917,13947,0,
13900,13770,13948,0,
13771,13903,13949,0,
13900,13733,13950,0,
13771,13911,13951,0,
13900,13919,13952,0,
13900,13920,13953,0,
13900,13905,13954,0,
13771,13910,13955,0,
13815,13902,13956,0,
13919,13815,13957,0,
13771,13919,13958,0,
13916,13815,13959,0,
13917,13815,13960,0,
13920,13815,13961,0,
13771,13905,13962,0,
13771,13914,13963,0,
13911,13815,13964,0,
13921,0,13965,2,
13923,0,13966,2,
13922,0,13967,2,
13771,13926,13968,0,
13894,13893,13969,0,
13926,13915,13970,1,
13970,13771,13971,0,
13926,13971,13972,1,
13900,13857,13973,0,
13900,13902,13974,0,
13900,13916,13975,0,
13900,13910,13976,0,
13900,13915,13977,0,
13900,13914,13978,0,
13913,13815,13979,0,
13843,13900,13980,0,
13900,13855,13981,0,
13900,0,13982,2,
13938,13937,13983,0,
13931,0,13984,2,
13932,0,13985,2,
13947,0,13986,2,
13935,0,13987,2,
13934,0,13988,2,
13936,0,13989,2,
13951,0,13990,2,
13949,0,13991,2,
13939,0,13992,2,
13941,0,13993,2,
13943,0,13994,2,
13944,0,13995,2,
13945,0,13996,2,
13942,0,13997,2,
13946,0,13998,2,
13948,0,13999,2,
13950,0,14000,2,
13953,0,14001,2,
13952,0,14002,2,
13954,0,14003,2,
13964,0,14004,2,
13963,0,14005,2,
13940,0,14006,2,
13961,0,14007,2,
13959,0,14008,2,
13960,0,14009,2,
13957,0,14010,2,
13956,0,14011,2,
13958,0,14012,2,
13955,0,14013,2,
13962,0,14014,2,
13968,0,14015,2,
13973,0,14016,2,
13974,0,14017,2,
13978,0,14018,2,
13975,0,14019,2,
13976,0,14020,2,
13844,13933,14021,0,
13977,0,14022,2,
13979,0,14023,2,
13972,0,14024,2,
13980,0,14025,2,
13969,0,14026,2,
13981,0,14027,2,
13933,13773,14028,0,
13814,13930,14029,0,
13983,13771,14030,0,
13985,13901,14031,0,
14023,13928,14032,0,
13983,13851,14033,0,
13988,13906,14034,0,
13904,13986,14035,0,
13907,13987,14036,0,
13989,13990,14037,0,
13912,13991,14038,0,
13940,13983,14039,0,
13992,13873,14040,0,
13997,13875,14041,0,
13995,13996,14042,0,
13918,13994,14043,0,
13947,13983,14044,0,
13935,13983,14045,0,
13949,13983,14046,0,
13835,13983,14047,0,
13951,13983,14048,0,
14010,14013,14049,0,
14004,14006,14050,0,
14009,13924,14051,0,
14008,14014,14052,0,
14012,13967,14053,0,
14011,13882,14054,0,
14007,14005,14055,0,
13958,13983,14056,0,
14015,13682,14057,0,
14021,0,14058,2,
14030,13741,14059,0,
14051,0,14060,2,
14030,13902,14061,0,
14030,13905,14062,0,
14033,0,14063,2,
14030,13869,14064,0,
14035,0,14065,2,
14034,0,14066,2,
14036,0,14067,2,
14037,0,14068,2,
14038,0,14069,2,
14039,0,14070,2,
14040,0,14071,2,
14041,0,14072,2,
14042,0,14073,2,
14045,0,14074,2,
14044,0,14075,2,
14043,0,14076,2,
14032,0,14077,2,
14030,13836,14078,0,
14030,13834,14079,0,
14030,13914,14080,0,
14030,13910,14081,0,
14046,0,14082,2,
14047,0,14083,2,
14048,0,14084,2,
14031,13969,14085,1,
14085,14033,14086,0,
14031,14086,14087,1,
14054,0,14088,2,
14052,0,14089,2,
14049,0,14090,2,
14030,13857,14091,0,
14055,0,14092,2,
14053,0,14093,2,
14033,13927,14094,0,
14050,0,14095,2,
14034,14031,14096,1,
14096,14033,14097,0,
14034,14097,14098,1,
14056,0,14099,2,
13733,14030,14100,0,
14030,13770,14101,0,
14030,13848,14102,0,
14033,14058,14103,0,
14057,13803,14104,0,
14030,13855,14105,0,
13881,14024,14106,1,
14106,14033,14107,0,
13881,14107,14108,1,
14100,0,14109,2,
14059,0,14110,2,
14062,0,14111,2,
14061,0,14112,2,
13899,14063,14113,0,
14064,0,14114,2,
14065,14063,14115,0,
14067,14063,14116,0,
14033,14066,14117,0,
14069,14063,14118,0,
14068,14063,14119,0,
14071,14063,14120,0,
14073,14063,14121,0,
14072,14063,14122,0,
14076,14063,14123,0,
14078,0,14124,2,
14077,14063,14125,0,
14080,0,14126,2,
14081,0,14127,2,
14079,0,14128,2,
14063,14026,14129,0,
14083,13925,14130,0,
14092,14063,14131,0,
14088,14063,14132,0,
14091,0,14133,2,
14094,0,14134,2,
14090,14063,14135,0,
14095,14063,14136,0,
14093,14063,14137,0,
14089,14063,14138,0,
14033,14060,14139,0,
13972,14063,14140,0,
14087,0,14141,2,
14060,14077,14142,1,
14142,14033,14143,0,
14060,14143,14144,1,
13890,14063,14145,0,
14099,14016,14146,0,
14098,0,14147,2,
13720,14063,14148,0,
13771,14063,14149,0,
14063,13771,14150,0,
14101,0,14151,2,
14103,0,14152,2,
14102,0,14153,2,
14105,0,14154,2,
14149,13857,14155,0,
14113,0,14156,2,
14025,14154,14157,0,
14115,0,14158,2,
14116,0,14159,2,
14117,0,14160,2,
14119,0,14161,2,
14118,0,14162,2,
14029,14152,14163,0,
14120,0,14164,2,
14121,0,14165,2,
14123,0,14166,2,
14122,0,14167,2,
13966,14128,14168,0,
13965,14124,14169,0,
14129,0,14170,2,
14125,0,14171,2,
14130,0,14172,2,
14132,0,14173,2,
14138,0,14174,2,
14135,0,14175,2,
14131,0,14176,2,
14137,0,14177,2,
14136,0,14178,2,
14139,0,14179,2,
14133,14134,14180,0,
14028,14148,14181,0,
14140,0,14182,2,
14144,0,14183,2,
14145,0,14184,2,
14017,14175,14185,0,
14020,14173,14186,0,
14176,14019,14187,0,
14104,14180,14188,0,
14163,0,14189,2,
14177,14022,14190,0,
14144,14141,14191,1,
14191,14163,14192,0,
14144,14192,14193,1,
14181,0,14194,2,
14184,14027,14195,0,
13993,14158,14196,0,
14160,14159,14197,0,
13999,14161,14198,0,
13998,14162,14199,0,
14000,14164,14200,0,
14098,14183,14201,1,
14201,14163,14202,0,
14098,14202,14203,1,
14002,14165,14204,0,
14003,14167,14205,0,
14001,14166,14206,0,
14169,14171,14207,0,
14168,14170,14208,0,
13772,14172,14209,0,
14146,14182,14210,0,
14155,0,14211,2,
14179,14178,14212,0,
14018,14174,14213,0,
14156,13984,14214,0,
14186,14110,14215,0,
14210,0,14216,2,
14108,14211,14217,0,
14195,14114,14218,0,
14188,0,14219,2,
14111,14187,14220,0,
14150,14189,14221,0,
14188,14163,14222,0,
14196,14070,14223,0,
14197,0,14224,2,
14198,14075,14225,0,
14212,0,14226,2,
14199,14074,14227,0,
14200,14082,14228,0,
14206,14126,14229,0,
14203,0,14230,2,
14204,14127,14231,0,
14205,14084,14232,0,
14187,14111,14233,0,
14185,14109,14234,0,
14207,14208,14235,1,
14235,14163,14236,0,
14207,14236,14237,1,
14213,14151,14238,0,
14214,14153,14239,0,
14209,0,14240,2,
14190,14112,14241,0,
14157,14194,14242,0,
14215,14232,14243,1,
14243,14163,14244,0,
14215,14244,14245,1,
14239,14216,14246,1,
14246,14163,14247,0,
14239,14247,14248,1,
14242,0,14249,2,
14239,0,14250,2,
14222,0,14251,2,
14231,14220,14252,1,
14252,14163,14253,0,
14231,14253,14254,1,
14226,14147,14255,1,
14255,14163,14256,0,
14226,14256,14257,1,
14237,0,14258,2,
120,14222,14259,0,
14216,14218,14260,1,
14260,14163,14261,0,
14216,14261,14262,1,
14223,0,14263,2,
14227,0,14264,2,
14225,0,14265,2,
14224,14226,14266,1,
14266,14163,14267,0,
14224,14267,14268,1,
14228,0,14269,2,
14231,0,14270,2,
14232,0,14271,2,
14229,0,14272,2,
14233,14234,14273,1,
14273,14163,14274,0,
14233,14274,14275,1,
14234,14238,14276,1,
14276,14163,14277,0,
14234,14277,14278,1,
14241,0,14279,2,
14221,0,14280,2,
14238,14215,14281,1,
14281,14163,14282,0,
14238,14282,14283,1,
14218,0,14284,2,
145,14222,14285,0,
14240,14171,14286,0,
120,145,14287,1,
14287,14222,14288,0,
120,14288,14289,1,
14245,0,14290,2,
14249,14217,14291,1,
14291,14163,14292,0,
14249,14292,14293,1,
14272,14270,14294,1,
14294,14163,14295,0,
14272,14295,14296,1,
120,14251,14297,0,
13982,14280,14298,0,
14217,14250,14299,1,
14299,14163,14300,0,
14217,14300,14301,1,
14279,14272,14302,1,
14302,14163,14303,0,
14279,14303,14304,1,
14254,0,14305,2,
14259,0,14306,2,
14248,14262,14307,0,
14278,0,14308,2,
14193,14258,14309,0,
14263,14224,14310,1,
14310,14163,14311,0,
14263,14311,14312,1,
14230,14257,14313,0,
14283,0,14314,2,
14265,14264,14315,1,
14315,14163,14316,0,
14265,14316,14317,1,
14264,14263,14318,1,
14318,14163,14319,0,
14264,14319,14320,1,
14269,14265,14321,1,
14321,14163,14322,0,
14269,14322,14323,1,
14087,14286,14324,1,
14324,14163,14325,0,
14087,14325,14326,1,
14271,14269,14327,1,
14327,14163,14328,0,
14271,14328,14329,1,
14284,14241,14330,1,
14330,14163,14331,0,
14284,14331,14332,1,
14259,13858,14333,0,
14163,14249,14334,0,
14275,0,14335,2,
14332,0,14336,2,
13895,14306,14337,0,
14293,0,14338,2,
14301,0,14339,2,
14334,0,14340,2,
14297,13815,14341,0,
14298,0,14342,2,
14308,14335,14343,0,
14326,0,14344,2,
14313,14312,14345,0,
14314,14290,14346,0,
14297,13470,14347,0,
14317,14329,14348,0,
14312,14268,14349,0,
14314,14305,14350,0,
14326,14237,14351,1,
14304,14314,14352,0,
14304,14296,14353,0,
14333,0,14354,2,
14305,14296,14355,0,
14320,14323,14356,0,
14297,13892,14357,0,
14342,14251,14358,0,
14248,14336,14359,0,
14339,14338,14360,0,
14343,14346,14361,0,
14353,14305,14362,0,
14309,14344,14363,0,
14345,14268,14364,0,
14346,14343,14365,0,
14344,14258,14366,0,
14347,0,14367,2,
14343,14355,14368,0,
14343,14296,14369,0,
14340,14219,14370,0,
14349,14348,14371,0,
14297,14351,14372,0,
14313,14356,14373,0,
14358,14370,14374,0,
14362,14361,14375,0,
14359,14360,14376,0,
14373,14371,14377,0,
14262,14370,14378,0,
14363,14290,14379,0,
14364,14317,14380,0,
14363,14320,14381,0,
14363,14257,14382,0,
14364,14320,14383,0,
14363,14268,14384,0,
14367,118,14385,0,
14363,14230,14386,1,
14193,14366,14387,1,
120,14370,14388,0,
14359,14262,14389,0,
14230,14363,14390,0,
14363,14375,14391,0,
14377,14189,14392,0,
14378,14376,14393,0,
14375,14336,14394,0,
14377,14363,14395,0,
14382,14230,14396,0,
14380,14381,14397,0,
14383,14363,14398,0,
14384,14345,14399,0,
14257,14390,14400,1,
14385,0,14401,2,
14262,14374,14402,0,
14376,14377,14403,0,
14377,14376,14404,0,
14350,14377,14405,0,
14369,14379,14406,0,
14377,14368,14407,0,
14352,14379,14408,0,
14375,14339,14409,0,
14297,14386,14410,0,
14297,14387,14411,0,
14377,14393,14412,0,
14392,14391,14413,0,
14394,14395,14414,0,
14365,14395,14415,0,
14397,14323,14416,0,
14396,14268,14417,0,
14406,14405,14418,0,
14395,14290,14419,0,
14395,14314,14420,0,
14395,14290,14421,1,
14408,14407,14422,0,
14317,14398,14423,1,
14397,14323,14424,1,
14320,14399,14425,1,
14396,14268,14426,1,
14402,14363,14427,0,
14262,14403,14428,0,
14388,14391,14429,0,
14389,14395,14430,0,
14297,14400,14431,0,
14428,14429,14432,0,
14412,14391,14433,0,
14420,14290,14434,0,
14427,14375,14435,0,
14393,14413,14436,0,
14409,14430,14437,0,
14414,14262,14438,0,
14307,14414,14439,0,
14428,14391,14440,0,
14415,14305,14441,0,
14314,14419,14442,1,
14418,14304,14443,1,
14415,14305,14444,1,
14262,14414,14445,1,
14329,14416,14446,1,
14312,14417,14447,1,
14422,14336,14448,1,
14297,14426,14449,0,
14297,14425,14450,0,
14297,14424,14451,0,
14297,14423,14452,0,
14297,14421,14453,0,
14432,0,14454,2,
14433,0,14455,2,
14189,14433,14456,1,
14404,14435,14457,0,
14033,14436,14458,1,
14308,14434,14459,1,
14296,14441,14460,1,
14339,14439,14461,1,
14248,14438,14462,1,
14338,14437,14463,1,
14370,14440,14464,1,
14297,14443,14465,0,
14297,14445,14466,0,
14297,14444,14467,0,
14297,14448,14468,0,
14308,14434,14469,0,
14297,14447,14470,0,
14297,14446,14471,0,
14297,14442,14472,0,
14335,14469,14473,1,
14337,14454,14474,0,
14456,14297,14475,0,
14457,0,14476,2,
14357,14455,14477,0,
13723,14455,14478,0,
13887,14455,14479,0,
120,14458,14480,0,
14297,14460,14481,0,
14297,14462,14482,0,
14297,14464,14483,0,
14341,14455,14484,0,
14463,14297,14485,0,
14297,14459,14486,0,
14297,14461,14487,0,
14478,0,14488,2,
14475,0,14489,2,
120,14476,14490,0,
14477,0,14491,2,
14479,0,14492,2,
14484,0,14493,2,
14473,14297,14494,0,
14480,0,14495,2,
120,14491,14496,0,
14489,120,14497,0,
120,14488,14498,0,
14490,14493,14499,0,
14492,14354,14500,0,
14498,0,14501,2,
14496,0,14502,2,
14499,0,14503,2,
14497,0,14504,2,
0,0,14505,1,
14505,14372,14506,1,
14505,14411,14507,1,
14505,14410,14508,1,
14505,14431,14509,1,
14505,14449,14510,1,
14505,14470,14511,1,
14505,14450,14512,1,
14505,14452,14513,1,
14505,14451,14514,1,
14505,14471,14515,1,
14505,14453,14516,1,
14505,14472,14517,1,
14505,14486,14518,1,
14505,14494,14519,1,
14505,14467,14520,1,
14505,14481,14521,1,
14505,14465,14522,1,
14505,14468,14523,1,
14505,14466,14524,1,
14505,14482,14525,1,
14505,14487,14526,1,
14505,14485,14527,1,
14505,14483,14528,1,
14505,14504,14529,1,
14505,14495,14530,1,
14505,14503,14531,1,
14505,14501,14532,1,
14505,14502,14533,1,
14505,14474,14534,1,
14505,14474,14535,1,
14505,14500,14536,1,
14505,14401,14537,1,
