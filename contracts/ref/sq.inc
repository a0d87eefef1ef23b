30,29,32,0,
3,6,33,0,
13,0,34,2,
23,0,35,2,
1,21,36,0,
0,22,37,0,
1,22,38,0,
0,0,39,2,
2,22,40,0,
3,22,41,0,
3,20,42,0,
7,18,43,0,
0,19,44,0,
6,18,45,0,
7,16,46,0,
5,19,47,0,
8,17,48,0,
1,20,49,0,
6,17,50,0,
0,21,51,0,
11,0,52,2,
1,19,53,0,
13,12,54,0,
7,17,55,0,
11,12,56,0,
4,20,57,0,
0,20,58,0,
11,14,59,0,
3,18,60,0,
5,18,61,0,
2,18,62,0,
8,16,63,0,
10,11,64,0,
8,15,65,0,
5,20,66,0,
0,17,67,0,
6,15,68,0,
2,20,69,0,
6,19,70,0,
5,15,71,0,
4,19,72,0,
3,21,73,0,
4,16,74,0,
10,0,75,2,
1,18,76,0,
0,19,77,0,
5,22,78,0,
5,16,79,0,
9,15,80,0,
10,15,81,0,
6,16,82,0,
9,16,83,0,
6,14,84,0,
10,13,85,0,
0,12,86,0,
5,17,87,0,
7,14,88,0,
10,12,89,0,
3,16,90,0,
9,12,91,0,
4,21,92,0,
12,15,93,0,
3,17,94,0,
20,0,95,2,
11,13,96,0,
21,0,97,2,
10,14,98,0,
8,13,99,0,
7,19,100,0,
11,16,101,0,
19,0,102,2,
6,13,103,0,
18,0,104,2,
4,18,105,0,
7,13,106,0,
5,15,107,0,
4,17,108,0,
8,12,109,0,
7,15,110,0,
7,20,111,0,
8,18,112,0,
5,14,113,0,
10,17,114,0,
9,19,115,0,
6,14,116,0,
7,12,117,0,
2,19,118,0,
16,0,119,2,
17,0,120,2,
3,19,121,0,
14,12,122,0,
8,20,123,0,
9,18,124,0,
9,11,125,0,
4,15,126,0,
6,20,127,0,
11,15,128,0,
9,13,129,0,
15,0,130,2,
14,0,131,2,
8,19,132,0,
10,16,133,0,
8,14,134,0,
11,21,135,0,
0,20,136,0,
13,15,137,0,
10,19,138,0,
9,11,139,0,
9,10,140,0,
9,17,141,0,
7,21,142,0,
5,21,143,0,
6,21,144,0,
10,18,145,0,
13,0,146,2,
12,0,147,2,
9,14,148,0,
6,22,149,0,
4,22,150,0,
2,21,151,0,
12,16,152,0,
11,17,153,0,
14,22,154,0,
9,0,155,2,
8,0,156,2,
14,13,157,0,
6,0,158,2,
5,0,159,2,
7,0,160,2,
2,0,161,2,
1,0,162,2,
4,0,163,2,
3,0,164,2,
29,0,165,2,
24,0,166,2,
26,0,167,2,
0,15,168,0,
30,29,169,1,
23,24,170,0,
3,14,171,0,
28,0,172,2,
25,0,173,2,
7,10,174,0,
1,16,175,0,
0,18,176,0,
1,17,177,0,
2,16,178,0,
5,13,179,0,
4,14,180,0,
6,12,181,0,
3,15,182,0,
8,10,183,0,
7,11,184,0,
17,19,185,0,
15,22,186,0,
16,20,187,0,
14,16,188,0,
9,17,189,0,
7,22,190,0,
14,15,191,0,
9,22,192,0,
18,19,193,0,
10,20,194,0,
18,20,195,0,
8,11,196,0,
9,21,197,0,
17,20,198,0,
17,21,199,0,
15,21,200,0,
15,19,201,0,
10,19,202,0,
9,20,203,0,
14,17,204,0,
2,17,205,0,
11,19,206,0,
16,22,207,0,
16,21,208,0,
13,18,209,0,
13,17,210,0,
11,18,211,0,
13,16,212,0,
12,19,213,0,
12,20,214,0,
12,18,215,0,
13,15,216,0,
12,17,217,0,
11,20,218,0,
18,21,219,0,
17,22,220,0,
8,22,221,0,
8,21,222,0,
20,19,223,0,
10,21,224,0,
16,17,225,0,
13,19,226,0,
11,22,227,0,
10,22,228,0,
19,21,229,0,
20,22,230,0,
18,22,231,0,
15,18,232,0,
15,17,233,0,
14,18,234,0,
16,18,235,0,
14,19,236,0,
0,14,237,0,
1,13,238,0,
15,16,239,0,
13,20,240,0,
13,22,241,0,
1,14,242,0,
0,15,243,0,
17,18,244,0,
12,21,245,0,
14,20,246,0,
1,15,247,0,
13,21,248,0,
16,19,249,0,
22,19,250,0,
3,12,251,0,
0,14,252,0,
0,16,253,0,
2,14,254,0,
15,20,255,0,
7,8,256,0,
12,22,257,0,
2,12,258,0,
6,9,259,0,
6,8,260,0,
4,12,261,0,
14,21,262,0,
5,10,263,0,
5,9,264,0,
1,11,265,0,
5,11,266,0,
4,11,267,0,
3,13,268,0,
4,10,269,0,
0,10,270,0,
1,9,271,0,
4,10,272,0,
6,10,273,0,
1,12,274,0,
0,13,275,0,
2,10,276,0,
2,13,277,0,
3,11,278,0,
0,11,279,0,
7,9,280,0,
6,11,281,0,
5,7,282,0,
3,10,283,0,
1,10,284,0,
5,12,285,0,
20,21,286,0,
4,12,287,0,
4,13,288,0,
3,9,289,0,
6,7,290,0,
1,5,291,0,
0,3,292,0,
0,9,293,0,
0,4,294,0,
3,5,295,0,
0,8,296,0,
1,7,297,0,
2,4,298,0,
2,15,299,0,
1,6,300,0,
0,6,301,0,
5,7,302,0,
5,8,303,0,
3,8,304,0,
4,8,305,0,
4,9,306,0,
1,4,307,0,
2,3,308,0,
1,3,309,0,
5,6,310,0,
0,10,311,0,
4,5,312,0,
0,6,313,0,
1,8,314,0,
2,8,315,0,
3,7,316,0,
2,11,317,0,
4,7,318,0,
2,9,319,0,
4,6,320,0,
3,4,321,0,
0,7,322,0,
2,6,323,0,
2,7,324,0,
0,5,325,0,
3,13,326,0,
0,16,327,0,
7,9,328,0,
1,2,329,0,
2,5,330,0,
8,9,331,0,
23,24,332,0,
22,0,333,2,
27,0,334,2,
22,21,335,0,
26,25,336,0,
23,24,337,0,
27,28,338,0,
30,0,339,2,
0,17,340,0,
15,0,341,2,
37,36,342,0,
39,12,343,1,
41,0,344,2,
40,0,345,2,
44,0,346,2,
52,51,347,1,
53,0,348,2,
36,0,349,2,
45,0,350,2,
67,0,351,2,
75,77,352,1,
14,34,353,0,
78,0,354,2,
45,40,355,0,
95,97,356,0,
102,104,357,0,
100,0,358,2,
41,13,359,0,
119,120,360,0,
115,0,361,2,
53,136,362,0,
131,130,363,0,
112,100,364,0,
0,135,365,0,
138,0,366,0,
147,146,367,0,
147,146,368,0,
131,130,369,0,
5,154,370,0,
157,0,371,2,
156,155,372,0,
75,52,373,0,
156,155,374,0,
161,164,375,0,
158,160,376,0,
39,162,377,0,
159,163,378,0,
165,339,379,0,
25,170,380,1,
155,340,381,1,
35,24,382,0,
168,0,383,2,
176,0,384,2,
185,0,385,2,
102,186,386,1,
189,0,387,0,
188,0,388,2,
130,190,389,1,
192,0,390,2,
16,341,391,0,
195,0,392,2,
187,185,393,0,
201,22,394,0,
177,176,395,0,
193,0,396,2,
110,22,397,0,
214,0,398,2,
191,0,399,2,
123,115,400,0,
20,220,401,1,
199,195,402,0,
219,0,403,2,
225,0,404,2,
17,227,405,1,
194,188,406,0,
17,230,407,0,
229,0,408,2,
16,219,409,0,
223,0,410,2,
83,22,411,0,
238,237,412,0,
235,0,413,2,
239,0,414,2,
135,214,415,0,
18,241,416,1,
156,243,417,1,
15,131,418,0,
244,0,419,2,
22,97,420,0,
247,0,421,2,
238,0,422,2,
231,229,423,0,
250,0,424,2,
21,95,425,0,
153,22,426,0,
147,131,427,0,
104,95,428,0,
19,104,429,0,
235,201,430,0,
265,86,431,0,
13,231,432,0,
265,0,433,2,
160,275,434,1,
271,270,435,0,
158,279,436,1,
65,0,437,0,
106,0,438,0,
230,0,439,2,
286,0,440,2,
300,0,441,2,
298,301,442,0,
292,5,443,0,
291,0,444,2,
295,0,445,2,
294,7,446,0,
271,0,447,2,
159,293,448,1,
296,297,449,0,
281,0,450,0,
294,0,451,2,
309,0,452,2,
307,0,453,2,
308,0,454,2,
318,319,455,1,
298,313,456,1,
316,0,457,2,
264,0,458,0,
3,325,459,1,
324,0,460,2,
163,322,461,1,
319,318,462,0,
297,0,463,2,
247,327,464,0,
308,307,465,0,
309,294,466,0,
25,332,467,0,
167,166,468,0,
334,35,469,0,
333,97,470,0,
172,173,471,0,
334,172,472,0,
230,19,473,0,
169,165,474,0,
335,0,475,2,
337,336,476,0,
23,166,477,0,
338,32,478,0,
379,0,479,2,
478,476,480,0,
448,312,481,1,
342,0,482,2,
345,1,483,1,
344,13,484,1,
49,346,485,0,
348,58,486,1,
349,37,487,1,
345,350,488,0,
76,351,489,0,
354,353,490,1,
355,0,491,2,
356,0,492,2,
343,0,493,2,
358,112,494,1,
359,0,495,2,
361,123,496,1,
347,0,497,2,
362,0,498,2,
364,0,499,2,
360,357,500,0,
368,369,501,0,
370,0,502,2,
372,373,503,0,
377,375,504,0,
376,378,505,0,
475,439,506,0,
175,383,507,0,
384,177,508,1,
385,187,509,1,
388,194,510,1,
386,193,511,1,
389,191,512,1,
390,391,513,1,
392,199,514,1,
352,0,515,2,
393,0,516,2,
394,0,517,2,
395,0,518,2,
397,0,519,2,
398,135,520,1,
403,16,521,1,
223,401,522,1,
402,0,523,2,
400,0,524,2,
404,405,525,1,
406,0,526,2,
407,0,527,2,
408,231,528,1,
409,0,529,2,
412,0,530,2,
413,201,531,1,
411,0,532,2,
415,0,533,2,
419,416,534,1,
418,0,535,2,
421,253,536,1,
420,0,537,2,
422,252,538,1,
426,0,539,2,
424,425,540,1,
423,0,541,2,
427,119,542,0,
430,0,543,2,
429,0,544,2,
432,0,545,2,
431,0,546,2,
433,86,547,1,
417,0,548,2,
435,0,549,2,
425,250,550,0,
436,0,551,2,
439,19,552,1,
434,0,553,2,
444,443,554,1,
447,311,555,1,
449,0,556,2,
441,442,557,1,
445,446,558,1,
453,454,559,0,
452,451,560,0,
448,0,561,2,
446,295,562,0,
443,291,563,0,
457,458,564,1,
442,300,565,0,
462,0,566,2,
461,330,567,1,
458,316,568,0,
465,0,569,2,
464,0,570,2,
463,296,571,1,
461,0,572,2,
26,467,573,0,
26,467,574,1,
469,471,575,0,
379,468,576,0,
470,95,577,0,
473,0,578,2,
381,0,579,2,
38,482,580,0,
483,45,581,1,
484,43,582,1,
347,485,583,1,
486,62,584,1,
487,69,585,1,
488,0,586,2,
352,489,587,1,
486,0,588,2,
490,93,589,1,
484,0,590,2,
357,492,591,0,
494,122,592,1,
494,0,593,2,
496,137,594,1,
485,497,595,0,
487,0,596,2,
500,0,597,2,
490,0,598,2,
502,371,599,0,
503,501,600,0,
505,504,601,0,
21,506,602,1,
537,20,603,1,
381,507,604,1,
480,0,605,2,
508,178,606,1,
509,0,607,2,
508,0,608,2,
511,198,609,1,
512,202,610,1,
510,197,611,1,
513,204,612,1,
515,76,613,0,
514,207,614,1,
517,396,615,0,
511,0,616,2,
496,0,617,2,
514,0,618,2,
510,0,619,2,
519,399,620,0,
520,226,621,1,
521,0,622,2,
521,522,623,1,
513,0,624,2,
525,232,625,1,
527,410,626,0,
528,17,627,1,
520,0,628,2,
242,530,629,0,
532,414,630,0,
531,246,631,1,
528,0,632,2,
525,0,633,2,
534,249,634,1,
531,0,635,2,
535,146,636,0,
428,537,637,0,
538,258,638,1,
536,254,639,1,
539,404,640,0,
542,0,641,2,
540,18,642,1,
534,0,643,2,
509,200,644,1,
538,0,645,2,
545,419,646,0,
274,546,647,0,
540,0,648,2,
536,0,649,2,
547,276,650,1,
512,0,651,2,
284,549,652,0,
550,0,653,2,
547,0,654,2,
555,315,655,1,
557,0,656,2,
558,0,657,2,
554,0,658,2,
481,0,659,2,
314,556,660,0,
33,481,661,1,
312,561,662,0,
559,0,663,2,
560,0,664,2,
557,321,665,1,
563,0,666,2,
564,0,667,2,
565,0,668,2,
579,175,669,0,
555,0,670,2,
562,0,671,2,
323,558,672,1,
554,456,673,1,
567,0,674,2,
568,0,675,2,
571,0,676,2,
330,572,677,0,
27,573,678,0,
27,573,679,1,
576,575,680,0,
552,0,681,2,
32,479,682,0,
506,0,683,2,
343,580,684,1,
582,48,685,1,
581,47,686,1,
583,60,687,1,
584,71,688,1,
585,82,689,1,
581,0,690,2,
1,586,691,0,
587,90,692,1,
584,0,693,2,
589,101,694,1,
62,588,695,0,
43,590,696,0,
582,0,697,2,
580,493,698,0,
591,0,699,2,
592,128,700,1,
583,0,701,2,
592,0,702,2,
122,593,703,0,
594,142,704,1,
595,0,705,2,
585,0,706,2,
69,596,707,0,
589,0,708,2,
93,598,709,0,
501,597,710,0,
600,601,711,0,
600,0,712,2,
602,0,713,2,
680,0,714,2,
606,179,715,1,
606,0,716,2,
200,607,717,0,
178,608,718,0,
609,208,719,1,
611,206,720,1,
610,203,721,1,
614,15,722,1,
613,0,723,2,
612,209,724,1,
609,0,725,2,
614,0,726,2,
615,0,727,2,
198,616,728,0,
594,0,729,2,
207,618,730,0,
216,617,731,0,
611,0,732,2,
197,619,733,0,
620,0,734,2,
621,228,735,1,
623,0,736,2,
612,0,737,2,
599,0,738,2,
622,522,739,0,
625,236,740,1,
204,624,741,0,
226,628,742,0,
627,626,743,1,
630,0,744,2,
417,629,745,1,
621,0,746,2,
625,0,747,2,
631,248,748,1,
626,0,749,2,
627,0,750,2,
17,632,751,0,
232,633,752,0,
631,0,753,2,
634,255,754,1,
636,0,755,2,
246,635,756,0,
638,260,757,1,
634,0,758,2,
637,0,759,2,
639,261,760,1,
640,0,761,2,
249,643,762,0,
641,52,763,0,
638,0,764,2,
644,154,765,1,
644,0,766,2,
258,645,767,0,
642,0,768,2,
434,647,769,1,
646,0,770,2,
629,548,771,0,
639,0,772,2,
610,0,773,2,
254,649,774,0,
650,282,775,1,
18,648,776,0,
202,651,777,0,
440,653,778,0,
650,0,779,2,
652,551,780,0,
436,652,781,1,
276,654,782,0,
647,553,783,0,
604,171,784,1,
33,659,785,0,
660,324,786,0,
323,657,787,0,
658,456,788,0,
655,320,789,1,
321,656,790,0,
604,0,791,2,
665,0,792,2,
655,0,793,2,
661,0,794,2,
329,664,795,0,
2,664,796,0,
459,663,797,0,
662,0,798,2,
460,660,799,1,
315,670,800,0,
587,0,801,2,
669,0,802,2,
672,0,803,2,
571,672,804,1,
673,0,805,2,
673,569,806,0,
28,678,807,0,
677,0,808,2,
28,678,809,1,
603,0,810,2,
683,21,811,0,
682,605,812,0,
714,35,813,0,
684,42,814,1,
685,54,815,1,
686,55,816,1,
687,64,817,1,
688,74,818,1,
689,87,819,1,
686,0,820,2,
47,690,821,0,
691,0,822,2,
107,693,823,0,
692,103,824,1,
685,0,825,2,
694,111,826,1,
688,0,827,2,
695,0,828,2,
143,700,829,1,
696,0,830,2,
48,697,831,0,
698,0,832,2,
360,699,833,0,
687,0,834,2,
700,0,835,2,
60,701,836,0,
703,0,837,2,
128,702,838,0,
684,0,839,2,
689,0,840,2,
82,706,841,0,
705,498,842,0,
704,145,843,1,
707,0,844,2,
101,708,845,0,
694,0,846,2,
710,0,847,2,
709,0,848,2,
711,0,849,2,
601,712,850,0,
784,331,851,1,
715,180,852,1,
715,0,853,2,
179,716,854,0,
718,0,855,2,
717,0,856,2,
721,211,857,1,
720,210,858,1,
719,14,859,1,
724,213,860,1,
722,0,861,2,
719,0,862,2,
723,518,863,0,
208,725,864,0,
15,726,865,0,
728,0,866,2,
704,0,867,2,
730,0,868,2,
722,615,869,1,
720,0,870,2,
142,729,871,0,
731,0,872,2,
206,732,873,0,
724,0,874,2,
733,0,875,2,
735,233,876,1,
739,0,877,2,
209,737,878,0,
740,240,879,1,
741,0,880,2,
742,0,881,2,
740,0,882,2,
735,0,883,2,
745,251,884,1,
228,746,885,0,
236,747,886,0,
748,0,887,2,
752,0,888,2,
751,0,889,2,
248,753,890,0,
750,749,891,0,
748,257,892,1,
755,147,893,0,
754,262,894,1,
756,0,895,2,
544,759,896,0,
255,758,897,0,
760,266,898,1,
757,264,899,1,
754,0,900,2,
757,0,901,2,
762,0,902,2,
765,13,903,1,
260,764,904,0,
765,0,905,2,
745,0,906,2,
154,766,907,0,
767,0,908,2,
771,0,909,2,
287,772,910,0,
769,283,911,1,
776,0,912,2,
774,0,913,2,
721,0,914,2,
203,773,915,0,
775,289,916,1,
302,779,917,0,
769,0,918,2,
781,304,919,1,
552,778,920,1,
777,0,921,2,
780,0,922,2,
775,0,923,2,
782,0,924,2,
781,0,925,2,
783,0,926,2,
760,0,927,2,
788,0,928,2,
789,0,929,2,
790,0,930,2,
786,0,931,2,
784,0,932,2,
785,0,933,2,
787,0,934,2,
320,793,935,0,
796,292,936,0,
795,0,937,2,
797,0,938,2,
692,0,939,2,
567,792,940,1,
171,791,941,0,
799,794,942,1,
802,570,943,0,
799,0,944,2,
800,0,945,2,
90,801,946,0,
466,805,947,0,
674,792,948,0,
676,803,949,0,
806,0,950,2,
807,0,951,2,
500,711,952,0,
778,0,953,2,
474,807,954,0,
811,0,955,2,
807,165,956,0,
813,24,957,1,
577,952,958,0,
813,0,959,2,
814,46,960,1,
816,57,961,1,
815,59,962,1,
817,68,963,1,
818,84,964,1,
816,0,965,2,
55,820,966,0,
819,89,967,1,
822,491,968,0,
821,0,969,2,
818,0,970,2,
824,113,971,1,
823,0,972,2,
826,114,973,1,
74,827,974,0,
54,825,975,0,
815,0,976,2,
832,482,977,0,
829,127,978,1,
831,0,979,2,
495,830,980,0,
833,0,981,2,
64,834,982,0,
829,0,983,2,
143,835,984,0,
814,0,985,2,
817,0,986,2,
819,0,987,2,
42,839,988,0,
836,0,989,2,
838,0,990,2,
499,837,991,0,
843,149,992,1,
841,0,993,2,
87,840,994,0,
842,0,995,2,
826,0,996,2,
845,0,997,2,
111,846,998,0,
503,847,999,0,
813,166,1000,0,
850,0,1001,2,
909,530,1002,0,
954,0,1003,2,
851,0,1004,2,
852,181,1005,1,
824,0,1006,2,
852,0,1007,2,
180,853,1008,0,
854,0,1009,2,
516,856,1010,0,
857,212,1011,1,
859,0,1012,2,
858,215,1013,1,
861,727,1014,0,
14,862,1015,0,
864,0,1016,2,
863,0,1017,2,
860,218,1018,1,
865,0,1019,2,
145,867,1020,0,
843,0,1021,2,
210,870,1022,0,
858,0,1023,2,
523,868,1024,0,
524,872,1025,0,
871,0,1026,2,
860,0,1027,2,
213,874,1028,0,
873,0,1029,2,
526,875,1030,0,
876,234,1031,1,
529,877,1032,0,
878,0,1033,2,
879,245,1034,1,
876,0,1035,2,
879,0,1036,2,
533,881,1037,0,
233,883,1038,0,
240,882,1039,0,
886,0,1040,2,
885,0,1041,2,
884,256,1042,1,
257,887,1043,0,
892,11,1044,1,
541,889,1045,0,
890,0,1046,2,
891,0,1047,2,
893,0,1048,2,
892,0,1049,2,
543,895,1050,0,
894,12,1051,1,
894,0,1052,2,
896,120,1053,0,
899,0,1054,2,
897,0,1055,2,
898,268,1056,1,
262,900,1057,0,
264,901,1058,0,
899,272,1059,1,
884,0,1060,2,
851,174,1061,1,
903,0,1062,2,
903,646,1063,1,
904,0,1064,2,
13,905,1065,0,
251,906,1066,0,
907,0,1067,2,
910,0,1068,2,
911,290,1069,1,
857,0,1070,2,
911,0,1071,2,
211,914,1072,0,
915,0,1073,2,
916,305,1074,1,
283,918,1075,0,
917,0,1076,2,
922,549,1077,0,
916,0,1078,2,
919,310,1079,1,
289,923,1080,0,
919,0,1081,2,
898,0,1082,2,
304,925,1083,0,
926,546,1084,0,
266,927,1085,0,
671,934,1086,0,
564,929,1087,1,
668,930,1088,0,
931,556,1089,0,
798,933,1090,0,
331,932,1091,0,
667,929,1092,0,
666,928,1093,0,
941,0,1094,2,
935,0,1095,2,
942,0,1096,2,
936,0,1097,2,
103,939,1098,0,
937,938,1099,0,
944,794,1100,0,
946,0,1101,2,
940,0,1102,2,
948,0,1103,2,
949,0,1104,2,
29,951,1105,0,
813,173,1106,0,
681,953,1107,0,
943,0,1108,2,
956,0,1109,2,
957,0,1110,2,
743,1032,1111,1,
1000,25,1112,1,
960,50,1113,1,
962,66,1114,1,
961,63,1115,1,
963,79,1116,1,
961,0,1117,2,
964,94,1118,1,
966,0,1119,2,
57,965,1120,0,
964,0,1121,2,
967,105,1122,1,
116,970,1123,0,
828,972,1124,0,
962,0,1125,2,
971,117,1126,1,
973,124,1127,1,
974,0,1128,2,
59,976,1129,0,
975,0,1130,2,
978,133,1131,1,
977,0,1132,2,
978,0,1133,2,
968,0,1134,2,
363,981,1135,0,
963,0,1136,2,
960,0,1137,2,
46,985,1138,0,
68,986,1139,0,
982,0,1140,2,
127,983,1141,0,
984,0,1142,2,
988,0,1143,2,
980,0,1144,2,
973,0,1145,2,
89,987,1146,0,
967,0,1147,2,
844,993,1148,0,
992,152,1149,1,
994,0,1150,2,
114,996,1151,0,
848,997,1152,0,
991,0,1153,2,
998,0,1154,2,
999,0,1155,2,
173,1000,1156,0,
169,1109,1157,0,
958,0,1158,2,
888,1040,1159,0,
1005,182,1160,1,
1005,0,1161,2,
971,0,1162,2,
181,1007,1163,0,
113,1006,1164,0,
1008,0,1165,2,
855,1009,1166,0,
1010,0,1167,2,
1011,217,1168,1,
1013,221,1169,1,
1014,0,1170,2,
866,1016,1171,0,
1015,0,1172,2,
1018,224,1173,1,
992,0,1174,2,
1013,0,1175,2,
1020,0,1176,2,
1018,0,1177,2,
149,1021,1178,0,
623,1024,1179,1,
1024,0,1180,2,
215,1023,1181,0,
218,1027,1182,0,
1022,0,1183,2,
1028,0,1184,2,
1031,9,1185,1,
1030,0,1186,2,
880,1033,1187,0,
1031,0,1188,2,
1034,10,1189,1,
1032,0,1190,2,
234,1035,1191,0,
245,1036,1192,0,
1037,0,1193,2,
1039,0,1194,2,
1038,0,1195,2,
1042,259,1196,1,
1043,0,1197,2,
1034,0,1198,2,
1044,0,1199,2,
642,1045,1200,1,
1044,640,1201,1,
1051,0,1202,2,
1050,0,1203,2,
1051,1050,1204,1,
1042,0,1205,2,
763,1048,1206,0,
1048,52,1207,0,
11,1049,1208,0,
12,1052,1209,0,
1056,273,1210,1,
269,1054,1211,0,
902,1055,1212,0,
1058,0,1213,2,
1045,0,1214,2,
1059,278,1215,1,
1057,0,1216,2,
256,1060,1217,0,
1061,281,1218,1,
1059,0,1219,2,
908,1064,1220,0,
1062,770,1221,0,
1066,0,1222,2,
1065,0,1223,2,
859,1010,1224,1,
913,1068,1225,0,
1069,303,1226,1,
212,1070,1227,0,
1011,0,1228,2,
1002,0,1229,2,
1072,0,1230,2,
1025,0,1231,2,
290,1071,1232,0,
1074,450,1233,1,
921,1073,1234,0,
1079,0,1235,2,
1077,0,1236,2,
305,1078,1237,0,
1075,0,1238,2,
1074,0,1239,2,
924,1076,1240,0,
1056,0,1241,2,
1069,0,1242,2,
310,1081,1243,0,
1080,0,1244,2,
1084,0,1245,2,
1083,0,1246,2,
326,1082,1247,0,
1085,0,1248,2,
1087,0,1249,2,
1087,1089,1250,1,
1089,0,1251,2,
1090,0,1252,2,
1092,0,1253,2,
1088,0,1254,2,
1091,0,1255,2,
1086,0,1256,2,
1093,940,1257,0,
1079,455,1258,1,
1098,0,1259,2,
945,1095,1260,0,
1099,1097,1261,0,
1093,0,1262,2,
1100,0,1263,2,
942,1086,1264,1,
808,1103,1265,0,
1105,0,1266,2,
680,958,1267,0,
958,480,1268,0,
1106,29,1269,0,
1107,0,1270,2,
1061,0,1271,2,
174,1004,1272,0,
1110,0,1273,2,
1156,167,1274,0,
1113,56,1275,1,
1115,73,1276,1,
1114,70,1277,1,
1116,88,1278,1,
63,1117,1279,0,
1118,106,1280,1,
1118,0,1281,2,
1115,0,1282,2,
1122,110,1283,1,
969,1119,1284,0,
1120,0,1285,2,
94,1121,1286,0,
1116,0,1287,2,
1126,126,1288,1,
1114,0,1289,2,
66,1125,1290,0,
1123,0,1291,2,
1126,0,1292,2,
1129,0,1293,2,
979,1130,1294,0,
1127,132,1295,1,
1131,141,1296,1,
1113,0,1297,2,
79,1136,1298,0,
1135,0,1299,2,
133,1133,1300,0,
1131,0,1301,2,
1138,0,1302,2,
990,1142,1303,0,
50,1137,1304,0,
989,1140,1305,0,
1139,0,1306,2,
1127,0,1307,2,
1141,0,1308,2,
1124,0,1309,2,
1122,0,1310,2,
124,1145,1311,0,
1146,0,1312,2,
105,1147,1313,0,
1149,153,1314,1,
1148,0,1315,2,
1151,0,1316,2,
999,1112,1317,0,
1112,0,1318,2,
1112,999,1319,1,
1155,479,1320,0,
1101,1259,1321,0,
578,1270,1322,0,
281,1271,1323,0,
1267,0,1324,2,
1160,183,1325,1,
1160,0,1326,2,
182,1161,1327,0,
117,1162,1328,0,
1163,0,1329,2,
1164,0,1330,2,
1166,0,1331,2,
1012,1167,1332,0,
620,1169,1333,0,
1168,222,1334,1,
1169,0,1335,2,
1019,1170,1336,0,
869,1171,1337,1,
1173,0,1338,2,
1149,0,1339,2,
152,1174,1340,0,
1026,1176,1341,0,
1171,0,1342,2,
224,1177,1343,0,
1178,0,1344,2,
1173,8,1345,1,
221,1175,1346,0,
1182,0,1347,2,
736,1180,1348,0,
1152,0,1349,2,
1029,1183,1350,0,
1181,0,1351,2,
1111,0,1352,2,
1185,0,1353,2,
1187,0,1354,2,
9,1188,1355,0,
1189,0,1356,2,
1191,0,1357,2,
1192,0,1358,2,
743,1190,1359,0,
1041,1195,1360,0,
1046,1197,1361,0,
1159,0,1362,2,
10,1198,1363,0,
1196,263,1364,1,
1196,0,1365,2,
1199,761,1366,0,
1202,1203,1367,0,
259,1205,1368,0,
1207,1053,1369,0,
1206,0,1370,2,
1208,0,1371,2,
1211,0,1372,2,
1210,280,1373,1,
1209,0,1374,2,
1212,0,1375,2,
1218,285,1376,1,
1063,1212,1377,1,
1217,0,1378,2,
1215,0,1379,2,
768,1214,1380,0,
278,1219,1381,0,
1067,1223,1382,0,
1221,0,1383,2,
1220,0,1384,2,
1168,0,1385,2,
1169,7,1386,1,
1227,0,1387,2,
217,1228,1388,0,
1226,306,1389,1,
1232,0,1390,2,
1215,438,1391,1,
1233,0,1392,2,
1210,0,1393,2,
1218,0,1394,2,
1226,0,1395,2,
1237,0,1396,2,
1235,455,1397,0,
1240,0,1398,2,
450,1239,1399,0,
273,1241,1400,0,
303,1242,1401,0,
1243,0,1402,2,
1234,0,1403,2,
1247,0,1404,2,
1233,1077,1405,1,
1225,0,1406,2,
1250,1252,1407,0,
1249,1251,1408,0,
1096,1256,1409,0,
1094,1255,1410,0,
675,1253,1411,0,
804,1254,1412,0,
1257,0,1413,2,
1258,1260,1414,1,
1260,0,1415,2,
1258,0,1416,2,
1102,1262,1417,0,
1254,804,1418,1,
1261,0,1419,2,
1264,0,1420,2,
1250,1090,1421,1,
1265,0,1422,2,
480,1158,1423,0,
1268,0,1424,2,
1156,0,1425,2,
1157,0,1426,2,
1272,0,1427,2,
1110,333,1428,0,
1322,603,1429,1,
1275,61,1430,1,
1277,81,1431,1,
1276,80,1432,1,
1275,0,1433,2,
1278,91,1434,1,
1276,0,1435,2,
106,1281,1436,0,
1280,109,1437,1,
73,1282,1438,0,
1279,0,1439,2,
1278,0,1440,2,
150,1296,1441,1,
1286,0,1442,2,
1280,0,1443,2,
1283,121,1444,1,
1277,0,1445,2,
88,1287,1446,0,
1128,1291,1447,0,
1288,0,1448,2,
70,1289,1449,0,
1290,0,1450,2,
1283,0,1451,2,
126,1292,1452,0,
1295,144,1453,1,
1284,0,1454,2,
1296,0,1455,2,
1298,0,1456,2,
56,1297,1457,0,
1300,0,1458,2,
367,1299,1459,0,
141,1301,1460,0,
110,1310,1461,0,
1304,0,1462,2,
1294,0,1463,2,
132,1307,1464,0,
1143,1302,1465,0,
1313,0,1466,2,
1150,1312,1467,0,
1311,0,1468,2,
1305,0,1469,2,
1314,5,1470,1,
1295,0,1471,2,
1303,0,1472,2,
1317,0,1473,2,
1154,1316,1474,0,
1318,1155,1475,0,
1274,27,1476,1,
1320,0,1477,2,
1274,165,1478,0,
1274,28,1479,1,
1274,0,1480,2,
1425,26,1481,1,
1426,479,1482,0,
1246,1402,1483,0,
1194,1358,1484,0,
1325,184,1485,1,
1325,0,1486,2,
1288,140,1487,1,
183,1326,1488,0,
1327,0,1489,2,
1328,0,1490,2,
1165,1329,1491,0,
1332,0,1492,2,
1333,0,1493,2,
1314,0,1494,2,
1334,6,1495,1,
8,1338,1496,0,
1340,0,1497,2,
1337,0,1498,2,
1336,0,1499,2,
153,1339,1500,0,
1335,734,1501,0,
1345,1030,1502,1,
1346,0,1503,2,
869,1342,1504,0,
1343,0,1505,2,
1348,0,1506,2,
1184,1347,1507,0,
1350,0,1508,2,
1345,0,1509,2,
1179,1336,1510,1,
1355,0,1511,2,
1193,1356,1512,1,
1359,0,1513,2,
1360,0,1514,2,
1356,1193,1515,0,
1318,1273,1516,0,
1361,0,1517,2,
1364,267,1518,1,
1363,0,1519,2,
1364,0,1520,2,
1366,0,1521,2,
263,1365,1522,0,
1369,0,1523,2,
1370,75,1524,0,
1204,1361,1525,1,
1368,0,1526,2,
1367,0,1527,2,
1063,1375,1528,0,
1216,1374,1529,0,
1213,1372,1530,0,
1373,437,1531,1,
1380,0,1532,2,
1376,288,1533,1,
1222,1378,1534,0,
1377,0,1535,2,
438,1379,1536,0,
1373,0,1537,2,
1025,1334,1538,0,
1224,1382,1539,1,
1381,0,1540,2,
222,1385,1541,0,
1334,0,1542,2,
1386,620,1543,1,
1388,0,1544,2,
1230,1387,1545,0,
1389,317,1546,1,
1376,0,1547,2,
1391,0,1548,2,
1238,1390,1549,0,
1389,0,1550,2,
1392,1236,1551,0,
1341,0,1552,2,
328,1393,1553,0,
285,1394,1554,0,
306,1395,1555,0,
1397,0,1556,2,
1399,0,1557,2,
1244,1396,1558,0,
1391,1084,1559,1,
1400,0,1560,2,
1401,0,1561,2,
1248,1404,1562,0,
947,1413,1563,0,
1409,0,1564,2,
1324,605,1565,0,
1411,0,1566,2,
1412,0,1567,2,
1407,0,1568,2,
950,1413,1569,0,
1408,0,1570,2,
1321,0,1571,2,
1417,0,1572,2,
1418,0,1573,2,
1382,0,1574,2,
1416,1415,1575,0,
1414,1411,1576,1,
1421,0,1577,2,
1418,1422,1578,0,
1322,0,1579,2,
1273,167,1580,0,
1423,0,1581,2,
1410,0,1582,2,
1323,0,1583,2,
1430,65,1584,1,
1431,83,1585,1,
1432,86,1586,1,
1430,0,1587,2,
1434,99,1588,1,
61,1433,1589,0,
1432,0,1590,2,
80,1435,1591,0,
1436,0,1592,2,
1438,0,1593,2,
1285,1439,1594,0,
1437,0,1595,2,
91,1440,1596,0,
1441,3,1597,1,
1444,129,1598,1,
109,1443,1599,0,
1431,0,1600,2,
81,1445,1601,0,
1444,0,1602,2,
1446,0,1603,2,
140,1448,1604,0,
1449,0,1605,2,
1293,1450,1606,0,
121,1451,1607,0,
1437,139,1608,1,
1434,0,1609,2,
1452,0,1610,2,
1453,4,1611,1,
1441,0,1612,2,
150,1455,1613,0,
1459,0,1614,2,
1457,0,1615,2,
1308,1458,1616,0,
1460,0,1617,2,
1306,1456,1618,0,
1447,0,1619,2,
1461,0,1620,2,
1464,0,1621,2,
1453,0,1622,2,
1465,0,1623,2,
144,1471,1624,0,
1467,0,1625,2,
1475,0,1626,2,
1481,0,1627,2,
1481,813,1628,0,
1480,479,1629,0,
1478,0,1630,2,
1481,959,1631,0,
1479,1476,1632,0,
1485,387,1633,1,
1427,1583,1634,0,
1482,0,1635,2,
1482,605,1636,0,
566,1556,1637,0,
1485,0,1638,2,
184,1486,1639,0,
1488,0,1640,2,
1487,196,1641,1,
1330,1490,1642,0,
1491,0,1643,2,
1172,1492,1644,0,
1495,1025,1645,1,
7,1493,1646,0,
5,1494,1647,0,
1470,0,1648,2,
1474,0,1649,2,
1500,0,1650,2,
1344,1497,1651,0,
1501,0,1652,2,
1179,1499,1653,0,
1496,0,1654,2,
1504,0,1655,2,
1351,1503,1656,0,
1502,1350,1657,1,
1185,1507,1658,1,
1510,0,1659,2,
1502,1508,1660,0,
1509,1186,1661,0,
1507,0,1662,2,
1357,1511,1663,0,
1484,1159,1664,1,
1047,1513,1665,0,
1484,0,1666,2,
1515,0,1667,2,
1518,0,1668,2,
1204,1517,1669,0,
1371,1521,1670,0,
267,1520,1671,0,
1522,0,1672,2,
1525,0,1673,2,
1524,1523,1674,0,
1518,277,1675,1,
1528,0,1676,2,
1529,0,1677,2,
1377,1529,1678,1,
1530,0,1679,2,
1531,0,1680,2,
1533,299,1681,1,
1536,0,1682,2,
1534,0,1683,2,
912,1532,1684,0,
437,1537,1685,0,
1538,0,1686,2,
1539,0,1687,2,
1541,0,1688,2,
1543,1234,1689,1,
1542,1231,1690,0,
1546,0,1691,2,
317,1550,1692,0,
288,1547,1693,0,
1551,0,1694,2,
1546,1240,1695,1,
1549,0,1696,2,
1545,0,1697,2,
1487,0,1698,2,
1554,0,1699,2,
1555,0,1700,2,
1553,0,1701,2,
1558,0,1702,2,
1483,0,1703,2,
1533,0,1704,2,
1559,1549,1705,1,
1543,1403,1706,0,
1481,1318,1707,0,
1548,1245,1708,0,
1562,0,1709,2,
1479,1476,1710,0,
1569,1419,1711,0,
1104,1567,1712,0,
1563,0,1713,2,
1414,1566,1714,0,
1263,1564,1715,0,
1570,1568,1716,0,
1224,1574,1717,0,
1265,1573,1718,0,
1565,379,1719,0,
1575,0,1720,2,
1576,0,1721,2,
1580,472,1722,0,
810,1579,1723,0,
813,1627,1724,0,
1627,959,1725,0,
1584,72,1726,1,
1584,0,1727,2,
1586,96,1728,1,
1585,92,1729,1,
65,1587,1730,0,
1589,0,1731,2,
1588,108,1732,1,
1586,0,1733,2,
1591,0,1734,2,
86,1590,1735,0,
1442,1592,1736,0,
125,1595,1737,0,
1599,0,1738,2,
1597,980,1739,1,
1585,0,1740,2,
1596,0,1741,2,
1598,134,1742,1,
83,1600,1743,0,
129,1602,1744,0,
1601,0,1745,2,
1594,0,1746,2,
1608,366,1747,1,
1608,0,1748,2,
1588,0,1749,2,
1607,0,1750,2,
1604,0,1751,2,
1597,0,1752,2,
99,1609,1753,0,
1611,991,1754,1,
3,1612,1755,0,
1613,0,1756,2,
1598,0,1757,2,
1606,0,1758,2,
1462,1615,1759,0,
1614,52,1760,0,
1468,1621,1761,0,
1618,0,1762,2,
1466,1620,1763,0,
1611,0,1764,2,
4,1622,1765,0,
1624,0,1766,2,
1616,0,1767,2,
1001,1627,1768,0,
1626,1627,1769,0,
1628,1273,1770,0,
1629,0,1771,2,
1631,1273,1772,0,
1631,1110,1773,0,
1482,0,1774,2,
387,1638,1775,0,
1639,0,1776,2,
1489,1640,1777,0,
1641,205,1778,1,
1644,0,1779,2,
1647,0,1780,2,
1646,0,1781,2,
1645,1341,1782,1,
1653,0,1783,2,
1505,1654,1784,0,
1656,0,1785,2,
1657,0,1786,2,
1657,1656,1787,1,
1658,630,1788,1,
1661,0,1789,2,
1660,0,1790,2,
1658,744,1791,0,
1353,1662,1792,0,
1663,1360,1793,1,
1663,0,1794,2,
1200,1665,1795,1,
1201,1664,1796,0,
1666,1362,1797,0,
1519,1667,1798,0,
1631,1110,1799,0,
1201,1664,1800,1,
1516,1628,1801,0,
277,1668,1802,0,
1669,0,1803,2,
1525,1670,1804,1,
1670,0,1805,2,
1526,1672,1806,0,
1671,0,1807,2,
1675,0,1808,2,
1675,1220,1809,1,
1383,1676,1810,0,
1535,1677,1811,0,
1540,1682,1812,0,
1681,1225,1813,1,
920,1684,1814,1,
1685,0,1815,2,
6,1686,1816,0,
1690,0,1817,2,
1651,0,1818,2,
1544,1688,1819,0,
1689,1545,1820,1,
1691,1398,1821,0,
1645,1552,1822,0,
1641,0,1823,2,
1689,0,1824,2,
1557,1694,1825,0,
1695,1558,1826,1,
1559,1696,1827,0,
1692,0,1828,2,
1693,0,1829,2,
1665,0,1830,2,
1681,0,1831,2,
1633,1634,1832,1,
196,1698,1833,0,
1637,1483,1834,1,
1560,1701,1835,0,
1561,1700,1836,0,
1637,0,1837,2,
299,1704,1838,0,
1695,1702,1839,0,
1705,0,1840,2,
1559,1696,1841,0,
1706,0,1842,2,
1708,0,1843,2,
1707,0,1844,2,
1642,0,1845,2,
1712,1420,1846,0,
1711,0,1847,2,
1715,0,1848,2,
1713,1572,1849,0,
1716,1576,1850,0,
1714,0,1851,2,
1712,0,1852,2,
1717,0,1853,2,
1716,0,1854,2,
1718,0,1855,2,
1337,1644,1856,1,
1631,22,1857,0,
1715,1421,1858,0,
1269,1722,1859,0,
1723,0,1860,2,
1684,0,1861,2,
1634,0,1862,2,
1633,0,1863,2,
1814,0,1864,2,
1863,1862,1865,0,
1506,1783,1866,0,
1726,0,1867,2,
72,1727,1868,0,
1729,2,1869,1,
1728,98,1870,1,
1730,0,1871,2,
1732,118,1872,1,
96,1733,1873,0,
1735,0,1874,2,
1593,1734,1875,0,
1728,0,1876,2,
1737,0,1877,2,
1603,1741,1878,0,
1729,0,1879,2,
1739,1294,1880,1,
1726,85,1881,1,
92,1740,1882,0,
1742,365,1883,1,
1743,0,1884,2,
1744,0,1885,2,
1605,1745,1886,0,
1610,1751,1887,0,
366,1748,1888,0,
1732,0,1889,2,
1747,0,1890,2,
108,1749,1891,0,
1736,0,1892,2,
1754,1303,1893,1,
1742,0,1894,2,
1752,1144,1895,0,
1753,0,1896,2,
1739,1463,1897,0,
1755,0,1898,2,
1617,1756,1899,0,
134,1757,1900,0,
1760,0,1901,2,
1759,0,1902,2,
1470,1761,1903,1,
1763,0,1904,2,
1754,1472,1905,0,
1764,1153,1906,0,
1765,0,1907,2,
1110,1724,1908,0,
1770,0,1909,2,
1771,1630,1910,0,
1725,1273,1911,0,
1774,605,1912,0,
1724,1273,1913,0,
812,1774,1914,0,
1110,1725,1915,0,
1724,1273,1916,0,
1775,0,1917,2,
1778,1777,1918,1,
1778,0,1919,2,
1777,0,1920,2,
1761,0,1921,2,
1498,1779,1922,0,
1782,1651,1923,1,
1781,1652,1924,0,
1650,1780,1925,0,
1784,0,1926,2,
1786,1785,1927,0,
1788,0,1928,2,
1789,1790,1929,0,
1792,0,1930,2,
1791,0,1931,2,
1512,1793,1932,1,
1794,1514,1933,0,
1512,1793,1934,0,
1797,0,1935,2,
1796,0,1936,2,
1800,1798,1937,1,
1527,1803,1938,0,
1798,0,1939,2,
1802,0,1940,2,
1806,0,1941,2,
1673,1805,1942,0,
1808,1384,1943,0,
1809,1679,1944,0,
1810,0,1945,2,
1835,1562,1946,1,
1809,1530,1947,1,
1811,0,1948,2,
1812,0,1949,2,
1816,0,1950,2,
1782,0,1951,2,
1820,1819,1952,1,
1822,0,1953,2,
1821,0,1954,2,
1699,1829,1955,0,
205,1823,1956,0,
1825,0,1957,2,
1819,0,1958,2,
1824,1697,1959,0,
1826,0,1960,2,
1200,1830,1961,0,
1832,943,1962,1,
1837,1703,1963,0,
1833,0,1964,2,
1405,1834,1965,0,
1795,0,1966,2,
1836,0,1967,2,
1705,1836,1968,1,
1831,1406,1969,0,
1835,0,1970,2,
1841,0,1971,2,
1839,0,1972,2,
1838,0,1973,2,
1710,1844,1974,0,
1405,1834,1975,1,
1850,0,1976,2,
1846,0,1977,2,
1849,1847,1978,0,
1720,1851,1979,0,
1577,1848,1980,0,
1721,1854,1981,0,
1264,1852,1982,0,
1636,0,1983,2,
1857,0,1984,2,
1858,0,1985,2,
1724,1110,1986,0,
1774,605,1987,0,
1832,1108,1988,0,
920,1861,1989,0,
1859,0,1990,2,
1632,1910,1991,0,
1990,479,1992,0,
85,1867,1993,0,
1868,0,1994,2,
1870,0,1995,2,
1869,968,1996,1,
1731,1871,1997,0,
1873,0,1998,2,
1872,1124,1999,1,
98,1876,2000,0,
1738,1877,2001,0,
1869,0,2002,2,
1882,0,2003,2,
1883,1878,2004,1,
2,1879,2005,0,
1881,148,2006,1,
1880,1606,2007,1,
1750,1885,2008,0,
1875,0,2009,2,
1872,0,2010,2,
1887,0,2011,2,
1891,0,2012,2,
1881,0,2013,2,
118,1889,2014,0,
1880,0,2015,2,
1895,0,2016,2,
365,1894,2017,0,
1883,0,2018,2,
1886,0,2019,2,
1893,1616,2020,1,
1878,0,2021,2,
1897,0,2022,2,
1900,0,2023,2,
374,1901,2024,0,
1903,599,2025,1,
1893,0,2026,2,
1899,0,2027,2,
1906,0,2028,2,
1905,0,2029,2,
1766,1907,2030,0,
1807,1940,2031,0,
1914,0,2032,2,
1985,1976,2033,0,
1776,1917,2034,0,
1747,1887,2035,1,
1918,1166,2036,1,
1918,1331,2037,0,
1919,1920,2038,0,
1888,0,2039,2,
1648,1921,2040,0,
1903,738,2041,0,
1922,0,2042,2,
1924,0,2043,2,
1923,1925,2044,1,
1926,1187,2045,1,
1866,0,2046,2,
1927,0,2047,2,
1926,1354,2048,0,
1930,1931,2049,0,
1929,0,2050,2,
1934,0,2051,2,
1933,0,2052,2,
1935,1936,2053,0,
1937,0,2054,2,
1938,0,2055,2,
1800,1939,2056,0,
1942,0,2057,2,
1680,1941,2058,0,
1678,1938,2059,1,
1943,0,2060,2,
1944,0,2061,2,
1945,1687,2062,1,
1947,0,2063,2,
1813,1946,2064,1,
1941,1680,2065,1,
1951,1818,2066,0,
1925,0,2067,2,
1950,1817,2068,0,
1952,0,2069,2,
1828,1954,2070,0,
1960,1957,2071,0,
1955,0,2072,2,
1956,0,2073,2,
1866,1111,2074,0,
1959,0,2075,2,
1820,1958,2076,0,
1787,1924,2077,1,
1840,1967,2078,0,
1961,1864,2079,0,
1963,0,2080,2,
1965,0,2081,2,
1969,0,2082,2,
1864,1966,2083,0,
1962,0,2084,2,
1813,1946,2085,0,
1970,1709,2086,0,
1843,1971,2087,0,
1989,0,2088,2,
1687,1945,2089,0,
1974,0,2090,2,
1957,1960,2091,1,
1975,0,2092,2,
1979,0,2093,2,
1980,1976,2094,0,
1578,1977,2095,0,
1978,0,2096,2,
1855,1977,2097,0,
1981,0,2098,2,
1982,0,2099,2,
1865,0,2100,2,
1988,0,2101,2,
1961,0,2102,2,
1983,1424,2103,0,
1992,0,2104,2,
1991,1318,2105,0,
1991,1112,2106,0,
1993,0,2107,2,
1996,1284,2108,1,
1999,1736,2109,1,
1874,1998,2110,0,
1997,0,2111,2,
2000,0,2112,2,
2002,1134,2113,0,
1996,1454,2114,0,
2006,151,2115,1,
2005,0,2116,2,
2004,842,2117,1,
2007,1886,2118,1,
1884,2003,2119,0,
2001,0,2120,2,
2010,1309,2121,0,
2006,0,2122,2,
2014,0,2123,2,
2015,1758,2124,0,
1896,2012,2125,0,
2008,0,2126,2,
148,2013,2127,0,
1999,1892,2128,0,
2007,2019,2129,0,
2018,2021,2130,0,
2004,995,2131,0,
2017,0,2132,2,
1898,2016,2133,0,
2020,1899,2134,1,
2024,0,2135,2,
2025,1152,2136,1,
2020,2027,2137,0,
2026,1767,2138,0,
2028,2029,2139,0,
1992,1001,2140,0,
1964,2073,2141,0,
1842,2075,2142,0,
1725,1991,2143,0,
2034,0,2144,2,
2035,1642,2145,1,
2036,0,2146,2,
2038,0,2147,2,
2037,0,2148,2,
1890,2011,2149,0,
2025,0,2150,2,
2030,0,2151,2,
2041,0,2152,2,
2040,0,2153,2,
1655,2042,2154,0,
1787,2043,2155,0,
2045,0,2156,2,
2046,1352,2157,1,
2045,1928,2158,1,
1352,2046,2159,0,
2048,0,2160,2,
1932,2049,2161,1,
1110,2024,2162,1,
2024,479,2163,0,
1801,1991,2164,0,
2052,2051,2165,0,
2049,0,2166,2,
2053,0,2167,2,
2031,0,2168,2,
1002,2031,2169,1,
1678,2055,2170,0,
2056,0,2171,2,
1804,2053,2172,1,
2058,0,2173,2,
2059,0,2174,2,
2060,2061,2175,0,
1949,2063,2176,1,
2044,0,2177,2,
2066,0,2178,2,
1923,2067,2179,0,
1949,2063,2180,0,
2068,0,2181,2,
2070,0,2182,2,
2076,0,2183,2,
2072,1410,2184,1,
2074,0,2185,2,
2071,0,2186,2,
2086,0,2187,2,
2079,0,2188,2,
2078,0,2189,2,
2080,2081,2190,0,
1968,2070,2191,1,
2085,0,2192,2,
1973,2082,2193,0,
2035,1845,2194,0,
2089,0,2195,2,
2091,0,2196,2,
1979,2092,2197,0,
2097,2096,2198,0,
2094,0,2199,2,
1975,2093,2200,0,
2095,0,2201,2,
2100,2101,2202,0,
2072,1582,2203,0,
2077,0,2204,2,
2103,0,2205,2,
2203,0,2206,2,
1628,2106,2207,0,
1994,2107,2208,0,
2108,1594,2209,1,
2110,0,2210,2,
2109,1447,2211,1,
2108,0,2212,2,
2113,0,2213,2,
2117,1305,2214,1,
2114,0,2215,2,
2118,2119,2216,1,
2115,2008,2217,1,
2109,0,2218,2,
2121,0,2219,2,
2119,0,2220,2,
2115,0,2221,2,
2118,0,2222,2,
151,2122,2223,0,
2117,0,2224,2,
2124,0,2225,2,
2128,0,2226,2,
2127,0,2227,2,
2131,0,2228,2,
2130,0,2229,2,
2023,2132,2230,0,
2129,0,2231,2,
2134,2133,2232,1,
2125,0,2233,2,
1110,2135,2234,0,
2136,1474,2235,1,
2134,0,2236,2,
2133,0,2237,2,
2138,0,2238,2,
2137,0,2239,2,
2140,0,2240,2,
2106,0,2241,2,
2106,1273,2242,0,
2077,2142,2243,1,
2106,1724,2244,0,
2105,1725,2245,0,
2105,1724,2246,0,
2106,1725,2247,0,
1631,2106,2248,0,
2144,1491,2249,1,
2145,0,2250,2,
2144,1643,2251,0,
2141,1321,2252,1,
2147,2148,2253,0,
2149,0,2254,2,
2139,0,2255,2,
2136,1649,2256,0,
2150,1349,2257,0,
2153,2152,2258,0,
2154,0,2259,2,
2155,0,2260,2,
2156,1928,2261,0,
2159,0,2262,2,
2158,0,2263,2,
2158,1929,2264,1,
1908,2105,2265,0,
2161,0,2266,2,
1770,2106,2267,0,
2162,2104,2268,0,
1799,2106,2269,0,
2104,959,2270,0,
2163,0,2271,2,
2165,0,2272,2,
1932,2166,2273,0,
1804,2167,2274,0,
1110,2106,2275,0,
1229,2168,2276,0,
1683,2169,2277,0,
2170,0,2278,2,
1815,2173,2279,0,
2172,0,2280,2,
2175,0,2281,2,
1683,2169,2282,1,
2176,1548,2283,0,
2179,0,2284,2,
1916,2105,2285,0,
1827,2176,2286,0,
2181,2069,2287,1,
1953,2178,2288,0,
2180,0,2289,2,
2181,2069,2290,0,
1968,2182,2291,0,
2083,2185,2292,0,
1972,2186,2293,0,
2141,0,2294,2,
2184,2084,2295,1,
2187,2192,2296,0,
2176,2087,2297,1,
2188,2088,2298,0,
2190,0,2299,2,
2191,0,2300,2,
2194,0,2301,2,
2105,1911,2302,0,
2190,2196,2303,0,
1853,2195,2304,0,
2193,0,2305,2,
1966,2185,2306,0,
2197,0,2307,2,
2184,0,2308,2,
2201,2099,2309,0,
2198,0,2310,2,
2200,0,2311,2,
2199,2098,2312,0,
2202,0,2313,2,
2157,0,2314,2,
2142,0,2315,2,
2208,0,2316,2,
2209,1875,2317,1,
2211,2001,2318,1,
2212,1746,2319,0,
2209,2009,2320,0,
2116,2213,2321,0,
2211,2120,2322,0,
2218,1619,2323,0,
2214,1618,2324,1,
2217,1148,2325,1,
2222,2220,2326,0,
2123,2219,2327,0,
2221,2126,2328,0,
2217,1315,2329,0,
2223,0,2330,2,
2224,1469,2331,0,
2214,1762,2332,0,
2022,2225,2333,0,
2229,2228,2334,0,
2230,0,2335,2,
2234,1473,2336,0,
2235,2030,2337,1,
2236,2237,2338,0,
2238,2239,2339,0,
2234,1319,2340,1,
1631,2242,2341,0,
2204,2315,2342,0,
1856,2304,2343,1,
2249,0,2344,2,
1017,2250,2345,1,
2251,0,2346,2,
2253,0,2347,2,
2039,2254,2348,0,
2235,0,2349,2,
2236,2237,2350,0,
2257,0,2351,2,
2256,0,2352,2,
2044,2258,2353,1,
2259,1659,2354,0,
2047,2260,2355,0,
2261,0,2356,2,
2263,2050,2357,0,
2248,1273,2358,0,
2268,0,2359,2,
2270,0,2360,2,
2273,0,2361,2,
2272,2054,2362,0,
2272,2054,2363,1,
2274,0,2364,2,
1948,2278,2365,0,
2275,1725,2366,0,
2277,0,2367,2,
2276,0,2368,2,
1724,2242,2369,0,
2282,2065,2370,1,
2275,1724,2371,0,
2064,2279,2372,1,
2282,2065,2373,0,
2207,1110,2374,0,
2258,0,2375,2,
2283,1245,2376,0,
2286,0,2377,2,
2287,2288,2378,1,
2279,0,2379,2,
2288,0,2380,2,
2290,0,2381,2,
2291,0,2382,2,
2250,1017,2383,0,
2294,1571,2384,0,
2295,2193,2385,1,
2292,0,2386,2,
2293,2191,2387,0,
2091,2299,2388,0,
2293,0,2389,2,
2297,0,2390,2,
2296,0,2391,2,
2295,0,2392,2,
2259,1659,2393,1,
2303,0,2394,2,
2036,2249,2395,1,
2306,0,2396,2,
2304,0,2397,2,
2308,2084,2398,0,
2309,2310,2399,0,
2312,2311,2400,0,
2398,0,2401,2,
2393,0,2402,2,
2316,1995,2403,1,
2316,1995,2404,0,
2317,0,2405,2,
2318,0,2406,2,
2319,0,2407,2,
2216,2321,2408,1,
2320,0,2409,2,
2322,0,2410,2,
2324,2125,2411,1,
2325,1467,2412,1,
2323,0,2413,2,
2326,0,2414,2,
2327,0,2415,2,
2324,0,2416,2,
2329,0,2417,2,
2328,0,2418,2,
2321,0,2419,2,
2227,2330,2420,0,
2331,0,2421,2,
2332,0,2422,2,
2232,2333,2423,1,
2325,0,2424,2,
2334,0,2425,2,
2333,0,2426,2,
2336,0,2427,2,
2337,2139,2428,1,
2338,0,2429,2,
2340,2104,2430,0,
2378,0,2431,2,
2369,0,2432,2,
2342,0,2433,2,
2395,2202,2434,1,
2102,2396,2435,0,
2399,0,2436,2,
1856,2397,2437,0,
2344,2146,2438,0,
2345,2252,2439,1,
2339,0,2440,2,
2337,2255,2441,0,
2318,2348,2442,1,
2349,2151,2443,0,
2351,2352,2444,0,
2354,2157,2445,0,
2355,0,2446,2,
2160,2356,2447,0,
2357,0,2448,2,
2264,2355,2449,1,
2271,2359,2450,0,
1674,2360,2451,0,
2362,0,2452,2,
2057,2364,2453,0,
2062,2365,2454,1,
2368,2367,2455,0,
2372,0,2456,2,
2370,2281,2457,0,
2365,0,2458,2,
2177,2375,2459,0,
2373,0,2460,2,
2376,0,2461,2,
2281,2370,2462,1,
2183,2381,2463,0,
2064,2379,2464,0,
2287,2380,2465,0,
2345,2252,2466,0,
2189,2382,2467,0,
2384,0,2468,2,
2385,2296,2469,1,
2383,0,2470,2,
2298,2386,2471,0,
2387,0,2472,2,
2300,2389,2473,0,
2343,0,2474,2,
2394,2307,2475,0,
2392,2305,2476,0,
2385,2391,2477,0,
2395,2313,2478,0,
2354,0,2479,2,
2435,0,2480,2,
2206,2401,2481,0,
2206,2401,2482,0,
2403,1997,2483,1,
2404,0,2484,2,
2403,2111,2485,0,
2210,2405,2486,1,
2406,1890,2487,0,
2405,2210,2488,0,
1888,2406,2489,0,
2215,2407,2490,0,
2408,0,2491,2,
2412,1763,2492,1,
2411,2327,2493,1,
2226,2413,2494,0,
2411,2415,2495,0,
2231,2414,2496,0,
2216,2419,2497,0,
2416,2233,2498,0,
2418,2417,2499,0,
2421,2422,2500,0,
2420,0,2501,2,
2412,1904,2502,0,
2423,0,2503,2,
2424,1625,2504,0,
2232,2426,2505,0,
2427,1626,2506,0,
2428,2339,2507,1,
1769,2427,2508,0,
2430,0,2509,2,
2437,0,2510,2,
2243,2463,2511,1,
2463,0,2512,2,
2262,2479,2513,0,
2439,2253,2514,1,
2434,0,2515,2,
2478,0,2516,2,
2438,0,2517,2,
2232,2426,2518,0,
2439,2347,2519,0,
2428,0,2520,2,
2441,0,2521,2,
2443,0,2522,2,
2353,2444,2523,1,
2444,0,2524,2,
2445,0,2525,2,
2264,2446,2526,0,
2447,0,2527,2,
2450,0,2528,2,
2171,2452,2529,0,
2453,0,2530,2,
2455,0,2531,2,
2454,0,2532,2,
2457,0,2533,2,
2062,2458,2534,0,
2459,0,2535,2,
2461,2289,2536,0,
2465,0,2537,2,
2462,0,2538,2,
2464,0,2539,2,
2466,0,2540,2,
2467,2297,2541,0,
2467,0,2542,2,
2388,2472,2543,0,
2471,0,2544,2,
2301,2470,2545,0,
2469,0,2546,2,
2473,0,2547,2,
2104,2432,2548,0,
2033,2436,2549,0,
2432,2104,2550,0,
2477,0,2551,2,
2449,0,2552,2,
2476,0,2553,2,
2475,2472,2554,0,
1864,2480,2555,0,
2493,2494,2556,1,
2483,0,2557,2,
2485,0,2558,2,
2112,2484,2559,0,
2488,0,2560,2,
2489,0,2561,2,
2487,2011,2562,0,
2408,2490,2563,1,
2490,0,2564,2,
2493,0,2565,2,
2492,2230,2566,1,
2494,0,2567,2,
2499,0,2568,2,
2497,0,2569,2,
2495,0,2570,2,
2423,2496,2571,1,
2498,0,2572,2,
2492,0,2573,2,
2496,0,2574,2,
2504,0,2575,2,
2502,0,2576,2,
2500,0,2577,2,
2505,0,2578,2,
2506,0,2579,2,
2508,0,2580,2,
2482,0,2581,2,
2513,2102,2582,0,
2346,2517,2583,0,
2514,0,2584,2,
2518,2507,2585,0,
2520,2440,2586,0,
2519,0,2587,2,
2350,2507,2588,0,
2521,2522,2589,0,
2523,0,2590,2,
2353,2524,2591,0,
2525,2262,2592,0,
2526,0,2593,2,
2527,2266,2594,1,
2266,2527,2595,0,
2451,2528,2596,0,
2529,0,2597,2,
2530,2174,2598,1,
2531,2456,2599,1,
2532,2530,2600,0,
2460,2533,2601,0,
2534,0,2602,2,
2284,2535,2603,0,
2536,2377,2604,0,
2456,2531,2605,0,
2511,0,2606,2,
2174,2530,2607,0,
2468,2540,2608,0,
2541,0,2609,2,
2284,2535,2610,0,
2343,2510,2611,0,
2545,0,2612,2,
2553,2551,2613,0,
2544,1429,2614,0,
2378,2537,2615,0,
2543,0,2616,2,
2542,2390,2617,0,
2481,2434,2618,0,
2548,0,2619,2,
2550,0,2620,2,
2549,0,2621,2,
2243,2512,2622,0,
2555,0,2623,2,
2613,0,2624,2,
2597,2280,2625,1,
1132,2557,2626,0,
2486,2559,2627,1,
2559,0,2628,2,
1132,2557,2629,1,
2409,2560,2630,0,
2562,0,2631,2,
2410,2561,2632,0,
2491,2564,2633,0,
2566,2334,2634,1,
2565,2567,2635,0,
2571,2216,2636,0,
2572,2570,2637,0,
2573,2335,2638,0,
2503,2574,2639,0,
2571,2491,2640,0,
2566,2425,2641,0,
2575,2576,2642,0,
2429,2578,2643,0,
2579,1768,2644,1,
849,2580,2645,0,
2580,2104,2646,0,
2603,0,2647,2,
2622,0,2648,2,
2583,0,2649,2,
2515,2581,2650,0,
2608,2545,2651,1,
2585,0,2652,2,
2586,0,2653,2,
2588,0,2654,2,
2523,2589,2655,1,
2590,2255,2656,0,
2443,2590,2657,0,
2591,0,2658,2,
2448,2593,2659,0,
2595,0,2660,2,
2280,2597,2661,0,
2600,2174,2662,0,
2598,2532,2663,0,
2599,0,2664,2,
2601,0,2665,2,
2604,0,2666,2,
2597,2280,2667,0,
2605,0,2668,2,
2604,2538,2669,0,
2582,2088,2670,0,
2607,0,2671,2,
2606,2431,2672,0,
2465,2606,2673,0,
2610,2537,2674,0,
2611,0,2675,2,
2582,2088,2676,0,
2608,0,2677,2,
2615,0,2678,2,
2614,0,2679,2,
2617,0,2680,2,
2616,2547,2681,0,
2400,2621,2682,0,
2410,2561,2683,0,
2618,0,2684,2,
2683,2631,2685,0,
2667,0,2686,2,
2626,0,2687,2,
2627,0,2688,2,
2629,1465,2689,1,
2486,2628,2690,0,
2563,2630,2691,1,
2632,2631,2692,0,
2630,0,2693,2,
2629,1623,2694,0,
2633,0,2695,2,
2635,0,2696,2,
2634,2500,2697,1,
2636,2419,2698,0,
2639,0,2699,2,
2640,2564,2700,0,
2637,0,2701,2,
2634,0,2702,2,
2638,0,2703,2,
2641,0,2704,2,
2507,2643,2705,1,
2644,2104,2706,0,
2645,0,2707,2,
2646,0,2708,2,
2681,2680,2709,0,
2433,2648,2710,0,
1860,2679,2711,0,
2650,0,2712,2,
2642,0,2713,2,
2584,2649,2714,0,
2442,2651,2715,1,
2652,2653,2716,0,
2625,0,2717,2,
2657,0,2718,2,
2656,2337,2719,0,
2647,2431,2720,1,
2594,2659,2721,1,
2361,2660,2722,0,
2659,0,2723,2,
2598,2625,2724,0,
2661,2663,2725,0,
2662,0,2726,2,
2601,2664,2727,0,
2647,2431,2728,0,
2599,2665,2729,0,
2539,2668,2730,0,
2667,2598,2731,0,
2669,0,2732,2,
2672,2647,2733,0,
2670,1860,2734,0,
2673,0,2735,2,
2674,0,2736,2,
2675,2393,2737,0,
2514,2649,2738,1,
2442,2651,2739,0,
2677,2612,2740,0,
2088,2623,2741,0,
2682,0,2742,2,
2712,2684,2743,0,
2740,0,2744,2,
2739,0,2745,2,
2709,0,2746,2,
2717,2686,2747,0,
2558,2687,2748,0,
2690,0,2749,2,
2689,0,2750,2,
2691,0,2751,2,
2692,0,2752,2,
2563,2693,2753,0,
2694,0,2754,2,
2569,2695,2755,0,
2697,2637,2756,1,
2698,0,2757,2,
2700,0,2758,2,
2703,2704,2759,0,
2697,2701,2760,0,
2702,2577,2761,0,
2706,0,2762,2,
2707,1476,2763,0,
2711,0,2764,2,
711,2708,2765,0,
2726,2602,2766,0,
2736,2678,2767,0,
2738,0,2768,2,
2554,2742,2769,0,
2714,0,2770,2,
2705,0,2771,2,
2716,2654,2772,0,
2710,0,2773,2,
2719,0,2774,2,
2658,2718,2775,0,
2721,0,2776,2,
2363,2722,2777,1,
2594,2723,2778,0,
2722,0,2779,2,
2724,2532,2780,0,
2727,0,2781,2,
2725,0,2782,2,
2728,0,2783,2,
2729,0,2784,2,
2730,2469,2785,0,
2731,0,2786,2,
2730,0,2787,2,
2732,2609,2788,0,
2733,0,2789,2,
2556,2685,2790,1,
2741,0,2791,2,
2516,2738,2792,0,
2516,2712,2793,0,
2511,2767,2794,1,
2792,2712,2795,0,
2790,0,2796,2,
2773,2552,2797,1,
2747,0,2798,2,
2748,0,2799,2,
1902,2750,2800,1,
2752,2556,2801,0,
1902,2750,2802,0,
2753,0,2803,2,
2571,2755,2804,1,
2756,0,2805,2,
2757,2699,2806,0,
2759,0,2807,2,
2761,0,2808,2,
2760,0,2809,2,
2762,2509,2810,0,
2763,1479,2811,0,
2765,0,2812,2,
2510,2782,2813,0,
2793,0,2814,2,
2769,0,2815,2,
2789,2735,2816,0,
2743,0,2817,2,
2751,2628,2818,0,
2587,2770,2819,0,
2655,2772,2820,1,
2772,0,2821,2,
2775,2774,2822,0,
2762,2240,2823,0,
2777,0,2824,2,
2778,0,2825,2,
2363,2779,2826,0,
2462,2781,2827,0,
2766,2782,2828,0,
2783,2537,2829,0,
2780,0,2830,2,
2785,0,2831,2,
2786,2671,2832,0,
2788,2781,2833,0,
2787,2546,2834,0,
2743,2624,2835,0,
2744,2745,2836,0,
2552,2773,2837,0,
2833,2831,2838,0,
2836,0,2839,2,
2688,2799,2840,0,
2800,2420,2841,1,
2800,2501,2842,0,
2795,0,2843,2,
2801,0,2844,2,
2802,0,2845,2,
2799,2688,2846,1,
2804,0,2847,2,
2806,2758,2848,0,
2808,2809,2849,0,
2810,1477,2850,0,
2811,0,2851,2,
2797,0,2852,2,
2715,2819,2853,1,
2751,2799,2854,0,
2818,2486,2855,0,
2655,2821,2856,0,
2822,0,2857,2,
2794,0,2858,2,
2720,2822,2859,1,
2837,0,2860,2,
2776,2797,2861,0,
2596,2823,2862,0,
2778,2824,2863,0,
2826,0,2864,2,
2780,2824,2865,0,
2827,2666,2866,0,
2813,2766,2867,0,
2829,0,2868,2,
2817,2613,2869,0,
2709,2815,2870,0,
2834,0,2871,2,
2768,2814,2872,0,
2828,0,2873,2,
2819,0,2874,2,
2839,2790,2875,1,
2838,2746,2876,0,
2840,0,2877,2,
2841,0,2878,2,
2844,2696,2879,0,
2754,2845,2880,0,
2842,0,2881,2,
2705,2848,2882,1,
2850,2240,2883,0,
2851,2104,2884,0,
2870,0,2885,2,
2720,2857,2886,0,
2715,2874,2887,0,
2835,2843,2888,0,
2872,0,2889,2,
2854,2688,2890,0,
2849,0,2891,2,
2855,0,2892,2,
2848,0,2893,2,
2856,0,2894,2,
2720,2857,2895,0,
2852,2449,2896,0,
2859,0,2897,2,
2816,2860,2898,0,
2863,0,2899,2,
2853,0,2900,2,
2866,0,2901,2,
2868,2606,2902,0,
2867,2830,2903,0,
2873,2474,2904,0,
2769,2838,2905,0,
2869,0,2906,2,
2796,2839,2907,0,
2876,0,2908,2,
2749,2877,2909,0,
2568,2878,2910,0,
2906,2843,2911,0,
2568,2878,2912,1,
2846,2880,2913,1,
2879,0,2914,2,
2880,0,2915,2,
2883,0,2916,2,
2884,0,2917,2,
2875,0,2918,2,
2888,0,2919,2,
2890,0,2920,2,
2882,2847,2921,0,
2771,2893,2922,0,
2895,2858,2923,0,
2858,2897,2924,0,
2896,0,2925,2,
2820,2894,2926,0,
2899,2864,2927,0,
2882,2847,2928,0,
2901,2784,2929,0,
2887,0,2930,2,
2903,0,2931,2,
2902,0,2932,2,
2756,2879,2933,1,
2886,0,2934,2,
2907,0,2935,2,
2904,0,2936,2,
2905,0,2937,2,
2909,0,2938,2,
2910,0,2939,2,
2913,0,2940,2,
2805,2914,2941,0,
2912,2642,2942,1,
2846,2915,2943,0,
2812,2916,2944,0,
2926,0,2945,2,
2737,2931,2946,0,
2900,2918,2947,0,
2920,2803,2948,0,
2912,2713,2949,0,
2919,2889,2950,0,
2922,0,2951,2,
2923,0,2952,2,
2924,2861,2953,0,
2776,2925,2954,0,
2862,2917,2955,0,
2927,0,2956,2,
2920,2803,2957,0,
2929,0,2958,2,
2927,2867,2959,0,
2918,2900,2960,0,
2936,2510,2961,0,
2887,2918,2962,0,
2938,2751,2963,0,
2881,2939,2964,0,
2960,2911,2965,0,
2942,0,2966,2,
2941,0,2967,2,
2943,0,2968,2,
2938,2751,2969,1,
2944,0,2970,2,
2950,0,2971,2,
2951,2894,2972,0,
2897,2945,2973,0,
2953,2945,2974,0,
2948,2892,2975,0,
2949,0,2976,2,
2898,2952,2977,0,
2955,0,2978,2,
2954,2824,2979,0,
2953,2945,2980,0,
2780,2956,2981,0,
2824,2945,2982,0,
2957,2892,2983,0,
2824,2945,2984,0,
2951,2894,2985,0,
2958,2831,2986,0,
2962,0,2987,2,
2932,2952,2988,0,
2973,2858,2989,0,
2963,0,2990,2,
2964,0,2991,2,
2933,2965,2992,0,
2807,2966,2993,1,
2969,0,2994,2,
2970,2917,2995,0,
2987,2935,2996,0,
2807,2966,2997,0,
2975,0,2998,2,
2977,0,2999,2,
2980,2865,3000,0,
2981,0,3001,2,
2982,2953,3002,0,
2900,2971,3003,0,
2988,0,3004,2,
2983,0,3005,2,
2984,2953,3006,0,
2986,0,3007,2,
2947,2971,3008,0,
3007,2871,3009,0,
3006,0,3010,2,
2803,2990,3011,0,
2940,2991,3012,0,
2993,2849,3013,1,
2995,0,3014,2,
3008,0,3015,2,
2993,2891,3016,0,
2997,0,3017,2,
2991,2940,3018,1,
2921,2998,3019,0,
2954,2999,3020,0,
2979,2999,3021,0,
3000,0,3022,2,
3002,0,3023,2,
3003,0,3024,2,
2797,2989,3025,0,
2797,3004,3026,0,
2921,3005,3027,0,
3006,2724,3028,0,
3011,0,3029,2,
3012,0,3030,2,
2804,3011,3031,1,
2996,3015,3032,0,
3027,0,3033,2,
3013,0,3034,2,
3016,0,3035,2,
2976,3017,3036,0,
3019,0,3037,2,
3020,0,3038,2,
2978,3014,3039,0,
3021,2780,3040,0,
3021,0,3041,2,
3001,3022,3042,0,
3024,2930,3043,0,
3010,2686,3044,0,
3009,0,3045,2,
3009,2908,3046,0,
3026,0,3047,2,
3032,0,3048,2,
3046,2937,3049,0,
2847,3029,3050,0,
2968,3030,3051,0,
2933,3034,3052,0,
2927,3041,3053,0,
2972,3033,3054,0,
2941,3034,3055,0,
3018,3036,3056,1,
3037,2951,3057,0,
3038,2825,3058,0,
3039,0,3059,2,
3040,0,3060,2,
3036,0,3061,2,
2928,3029,3062,0,
3023,3041,3063,0,
3031,0,3064,2,
3047,2860,3065,0,
3048,2933,3066,0,
3049,0,3067,2,
3050,0,3068,2,
3051,0,3069,2,
3056,0,3070,2,
3042,3060,3071,0,
2965,3052,3072,0,
3052,3048,3073,0,
3055,0,3074,2,
3057,2894,3075,0,
3054,0,3076,2,
3053,0,3077,2,
3062,0,3078,2,
3063,2959,3079,0,
2686,3054,3080,0,
3018,3061,3081,0,
3044,3053,3082,0,
3052,3070,3083,0,
3082,0,3084,2,
2992,3067,3085,0,
3066,0,3086,2,
3069,2994,3087,1,
3081,0,3088,2,
3079,0,3089,2,
3069,2969,3090,0,
3073,0,3091,2,
3072,3067,3092,0,
3074,3035,3093,0,
2974,3076,3094,0,
2828,3071,3095,0,
3067,2911,3096,0,
2724,3077,3097,0,
3076,2989,3098,0,
3067,2965,3099,0,
3071,0,3100,2,
2985,3078,3101,0,
3080,3053,3102,0,
2965,3083,3103,0,
3085,0,3104,2,
3083,3048,3105,0,
3086,2967,3106,0,
3090,0,3107,2,
3099,0,3108,2,
3084,2798,3109,0,
2946,3089,3110,0,
3093,3091,3111,0,
3092,0,3112,2,
3094,0,3113,2,
3101,3053,3114,0,
3095,0,3115,2,
3087,0,3116,2,
3087,2994,3117,0,
3093,0,3118,2,
3097,0,3119,2,
3048,3083,3120,0,
3096,2900,3121,0,
3100,2474,3122,0,
3098,0,3123,2,
3096,0,3124,2,
3067,3103,3125,0,
3106,3104,3126,0,
3105,0,3127,2,
3103,2838,3128,0,
3110,2157,3129,0,
2950,3124,3130,0,
3111,3112,3131,0,
3058,3113,3132,0,
3110,0,3133,2,
3121,0,3134,2,
3070,3118,3135,0,
2832,3119,3136,0,
3120,0,3137,2,
3117,0,3138,2,
3103,3045,3139,0,
3032,3108,3140,0,
3116,3103,3141,0,
3114,0,3142,2,
3123,2988,3143,0,
2933,3140,3144,1,
3043,3134,3145,0,
3013,3126,3146,1,
3125,0,3147,2,
3128,2885,3148,0,
3139,0,3149,2,
3135,0,3150,2,
2882,3138,3151,0,
3067,3141,3152,0,
3056,3131,3153,1,
2853,3130,3154,1,
3122,3142,3155,0,
3133,2676,3156,0,
2734,3133,3157,0,
3138,3031,3158,0,
3150,3088,3159,0,
3146,1273,3160,0,
3145,2875,3161,1,
2242,3153,3162,0,
3152,0,3163,2,
3149,3107,3164,0,
3144,0,3165,2,
1916,3154,3166,0,
1908,3153,3167,0,
1992,3154,3168,0,
2369,3146,3169,0,
1992,3146,3170,0,
1992,3153,3171,0,
3151,3031,3172,0,
3148,0,3173,2,
3156,0,3174,2,
3157,0,3175,2,
3155,0,3176,2,
3176,2961,3177,0,
3159,3127,3178,0,
3160,0,3179,2,
1992,3161,3180,0,
1992,3165,3181,0,
3165,1273,3182,0,
3167,0,3183,2,
3166,0,3184,2,
3168,0,3185,2,
3169,0,3186,2,
3170,0,3187,2,
1916,3161,3188,0,
3171,0,3189,2,
3175,2764,3190,0,
2369,3165,3191,0,
3164,0,3192,2,
3174,2791,3193,0,
3159,3137,3194,0,
3162,0,3195,2,
3178,3147,3196,0,
3180,0,3197,2,
3194,3173,3198,0,
3188,0,3199,2,
3182,0,3200,2,
3184,3183,3201,0,
3178,0,3202,2,
3194,3173,3203,0,
3172,3192,3204,0,
3181,0,3205,2,
3191,0,3206,2,
713,3190,3207,0,
3087,3196,3208,1,
3199,1112,3209,0,
3197,2241,3210,0,
3202,3116,3211,0,
3198,0,3212,2,
3204,0,3213,2,
3203,3164,3214,0,
3214,0,3215,2,
1908,3208,3216,0,
2242,3208,3217,0,
1992,3208,3218,0,
3211,0,3219,2,
3172,3212,3220,0,
2867,3213,3221,0,
3158,3215,3222,0,
3216,0,3223,2,
3220,0,3224,2,
3221,3114,3225,0,
3172,3215,3226,0,
3219,3107,3227,0,
3217,1725,3228,0,
3217,0,3229,2,
3218,0,3230,2,
3122,3226,3231,0,
3222,0,3232,2,
3209,3223,3233,0,
3226,0,3234,2,
3225,3224,3235,0,
2974,3226,3236,0,
3228,0,3237,2,
3226,2989,3238,0,
3227,3163,3239,0,
3231,0,3240,2,
3068,3232,3241,0,
3234,3054,3242,0,
3235,0,3243,2,
3064,3239,3244,1,
3057,3234,3245,0,
3075,3234,3246,0,
3236,0,3247,2,
2828,3234,3248,0,
3235,2734,3249,0,
3235,2676,3250,0,
3238,0,3251,2,
3234,3102,3252,0,
2882,3241,3253,1,
3143,3251,3254,0,
2242,3244,3255,0,
3252,0,3256,2,
1110,3244,3257,0,
3129,3243,3258,0,
2820,3245,3259,1,
3177,3240,3260,0,
3246,0,3261,2,
3132,3247,3262,0,
3248,3114,3263,0,
3242,0,3264,2,
2371,3244,3265,0,
1992,3244,3266,0,
3110,3243,3267,0,
3249,0,3268,2,
3250,0,3269,2,
3193,3269,3270,0,
2777,3262,3271,1,
3253,0,3272,2,
2852,3254,3273,1,
1725,3259,3274,0,
3267,0,3275,2,
3257,0,3276,2,
3258,0,3277,2,
1916,3259,3278,0,
2402,3260,3279,1,
3261,2945,3280,0,
1992,3259,3281,0,
3263,0,3282,2,
3028,3264,3283,0,
3109,3256,3284,0,
3264,3006,3285,0,
2973,3264,3286,0,
3207,3268,3287,0,
3265,0,3288,2,
3255,0,3289,2,
2275,3259,3290,0,
3025,3264,3291,0,
3266,0,3292,2,
3279,1110,3293,0,
1429,3270,3294,1,
3279,1273,3295,0,
3279,1915,3296,0,
2734,3275,3297,0,
1110,3272,3298,0,
2479,3275,3299,0,
3284,2598,3300,1,
2598,3284,3301,1,
3273,1273,3302,0,
1992,3273,3303,0,
3200,3276,3304,0,
2592,3277,3305,0,
3278,2105,3306,0,
2358,3279,3307,0,
2582,3275,3308,0,
2859,3280,3309,1,
2371,3272,3310,0,
2592,3277,3311,0,
2242,3272,3312,0,
2275,3273,3313,0,
1908,3271,3314,0,
3278,0,3315,2,
2366,3271,3316,0,
3281,0,3317,2,
1992,3271,3318,0,
1992,3272,3319,0,
3282,3115,3320,0,
1992,3279,3321,0,
3283,0,3322,2,
3271,1273,3323,0,
3285,0,3324,2,
3286,0,3325,2,
3206,3288,3326,0,
3287,0,3327,2,
3290,0,3328,2,
3274,0,3329,2,
3291,0,3330,2,
1911,3271,3331,0,
2934,3325,3332,0,
3053,3324,3333,0,
3294,1110,3334,0,
3295,0,3335,2,
1911,3301,3336,0,
955,3327,3337,0,
3302,0,3338,2,
3297,0,3339,2,
3298,0,3340,2,
2314,3299,3341,1,
2343,3320,3342,1,
1795,3305,3343,1,
1992,3294,3344,0,
1628,3294,3345,0,
3303,0,3346,2,
3304,0,3347,2,
3306,0,3348,2,
2269,3294,3349,0,
3307,0,3350,2,
3308,0,3351,2,
3309,0,3352,2,
1428,3327,3353,0,
3310,0,3354,2,
1911,3294,3355,0,
3314,0,3356,2,
3312,0,3357,2,
1966,3311,3358,1,
3296,0,3359,2,
3313,0,3360,2,
1916,3294,3361,0,
3316,0,3362,2,
2341,3294,3363,0,
2369,3294,3364,0,
3318,0,3365,2,
3319,0,3366,2,
3326,3205,3367,0,
3296,2105,3368,0,
3321,0,3369,2,
3293,0,3370,2,
3195,3328,3371,0,
3323,0,3372,2,
3301,1273,3373,0,
1992,3301,3374,0,
3065,3330,3375,0,
3300,1110,3376,0,
3136,3322,3377,0,
3331,0,3378,2,
3334,0,3379,2,
3341,1915,3380,0,
3336,0,3381,2,
3337,333,3382,0,
3342,0,3383,2,
3339,2764,3384,0,
3179,3340,3385,0,
1772,3341,3386,0,
3343,0,3387,2,
2454,3377,3388,1,
3371,0,3389,2,
3374,0,3390,2,
2794,3332,3391,1,
1992,3343,3392,0,
1992,3341,3393,0,
3373,0,3394,2,
3368,0,3395,2,
2717,3333,3396,1,
1725,3347,3397,0,
2721,3375,3398,1,
1628,3343,3399,0,
3349,0,3400,2,
3351,2480,3401,0,
2366,3352,3402,0,
3341,1273,3403,0,
3353,0,3404,2,
3187,3354,3405,0,
3355,2106,3406,0,
2275,3352,3407,0,
1916,3352,3408,0,
3337,0,3409,2,
3358,1273,3410,0,
3357,3360,3411,0,
3361,0,3412,2,
1992,3352,3413,0,
1725,3352,3414,0,
3355,2105,3415,0,
3364,0,3416,2,
3356,333,3417,0,
3363,0,3418,2,
3369,2241,3419,0,
3344,0,3420,2,
3345,0,3421,2,
1110,3341,3422,0,
3376,0,3423,2,
3342,1273,3424,0,
3421,3329,3425,0,
3380,0,3426,2,
1911,3398,3427,0,
2275,3391,3428,0,
3338,3423,3429,0,
3424,0,3430,2,
713,3384,3431,1,
3385,0,3432,2,
3386,0,3433,2,
3419,0,3434,2,
2366,3398,3435,0,
3388,0,3436,2,
3388,1915,3437,0,
3422,0,3438,2,
1110,3396,3439,0,
3397,0,3440,2,
2265,3398,3441,0,
2267,3388,3442,0,
1814,3401,3443,1,
3402,0,3444,2,
1992,3383,3445,0,
3403,2207,3446,0,
3403,2247,3447,0,
3392,0,3448,2,
3382,0,3449,2,
3398,1273,3450,0,
1908,3398,3451,0,
1110,3388,3452,0,
1911,3396,3453,0,
3406,0,3454,2,
3403,0,3455,2,
3407,0,3456,2,
3408,0,3457,2,
3409,22,3458,1,
3410,0,3459,2,
3411,0,3460,2,
1992,3398,3461,0,
2246,3404,3462,0,
1631,3409,3463,0,
3414,0,3464,2,
3413,0,3465,2,
1992,3391,3466,0,
1992,3396,3467,0,
3415,0,3468,2,
3387,1273,3469,0,
1110,3387,3470,0,
3383,1110,3471,0,
1915,3383,3472,0,
3335,3379,3473,0,
1725,3389,3474,0,
1986,3396,3475,0,
1992,3388,3476,0,
1724,3389,3477,0,
3396,1273,3478,0,
1913,3391,3479,0,
3391,1273,3480,0,
3393,0,3481,2,
3473,0,3482,2,
3429,0,3483,2,
1773,3431,3484,0,
1628,3430,3485,0,
1725,3432,3486,0,
3233,3433,3487,0,
3479,0,3488,2,
3449,2620,3489,0,
1725,3430,3490,0,
3417,3457,3491,0,
3477,0,3492,2,
3427,0,3493,2,
3437,0,3494,2,
3475,0,3495,2,
3443,0,3496,2,
3426,3381,3497,0,
3439,0,3498,2,
3480,0,3499,2,
3201,3440,3500,0,
3458,0,3501,2,
3441,0,3502,2,
3442,0,3503,2,
3443,1273,3504,0,
2106,3430,3505,0,
1110,3431,3506,0,
2374,3431,3507,0,
3444,3186,3508,0,
3445,0,3509,2,
3447,0,3510,2,
3446,0,3511,2,
3431,0,3512,2,
2285,3449,3513,0,
1273,3455,3514,0,
3451,0,3515,2,
3450,0,3516,2,
3453,0,3517,2,
3452,0,3518,2,
3457,3356,3519,0,
3426,3381,3520,0,
3229,3456,3521,0,
1911,3431,3522,0,
2246,3430,3523,0,
1110,3458,3524,0,
1725,3460,3525,0,
2246,3459,3526,0,
2267,3449,3527,0,
1916,3431,3528,0,
3461,0,3529,2,
1724,3460,3530,0,
1628,3431,3531,0,
3463,0,3532,2,
3453,2105,3533,0,
2341,3431,3534,0,
2302,3449,3535,0,
1992,3431,3536,0,
3467,0,3537,2,
1911,3449,3538,0,
1273,3436,3539,0,
3469,0,3540,2,
1984,3464,3541,0,
3466,0,3542,2,
3474,0,3543,2,
3470,0,3544,2,
3476,0,3545,2,
3428,0,3546,2,
1110,3443,3547,0,
3478,0,3548,2,
3435,0,3549,2,
3471,0,3550,2,
3425,0,3551,2,
3394,3438,3552,0,
3472,0,3553,2,
2242,3551,3554,0,
3519,1909,3555,0,
3491,3337,3556,0,
3547,0,3557,2,
1724,3483,3558,0,
3484,0,3559,2,
3486,0,3560,2,
2143,3483,3561,0,
3488,3493,3562,0,
3489,0,3563,2,
3552,0,3564,2,
1724,3482,3565,0,
3367,3543,3566,0,
3536,0,3567,2,
3499,3498,3568,0,
3500,0,3569,2,
3502,3348,3570,0,
2164,3501,3571,0,
3378,3553,3572,0,
3505,1724,3573,0,
3504,0,3574,2,
2246,3483,3575,0,
3506,2247,3576,0,
3507,0,3577,2,
3508,3237,3578,0,
3513,0,3579,2,
1110,3512,3580,0,
3514,0,3581,2,
3515,3315,3582,0,
3517,3359,3583,0,
3516,3518,3584,0,
1911,3501,3585,0,
3521,0,3586,2,
1635,3489,3587,0,
3520,0,3588,2,
2106,3501,3589,0,
3519,0,3590,2,
3524,0,3591,2,
3522,2105,3592,0,
2245,3482,3593,0,
3527,0,3594,2,
2247,3483,3595,0,
3525,0,3596,2,
3531,0,3597,2,
3530,0,3598,2,
3528,2105,3599,0,
3535,0,3600,2,
2341,3501,3601,0,
3534,0,3602,2,
3533,0,3603,2,
2207,3482,3604,0,
2247,3482,3605,0,
3372,3550,3606,0,
3501,2619,3607,0,
3539,0,3608,2,
2285,3501,3609,0,
3522,0,3610,2,
3289,3546,3611,0,
3538,0,3612,2,
1992,3496,3613,0,
3548,3370,3614,0,
3494,3495,3615,0,
3506,0,3616,2,
3528,0,3617,2,
3612,3617,3618,0,
3555,0,3619,2,
3485,3557,3620,0,
3558,0,3621,2,
3556,0,3622,2,
3559,2104,3623,0,
3561,0,3624,2,
3562,3615,3625,0,
3544,3608,3626,0,
3574,3404,3627,0,
3611,0,3628,2,
3614,0,3629,2,
3603,3189,3630,0,
3565,0,3631,2,
1003,3563,3632,0,
3540,3591,3633,0,
2106,3608,3634,0,
3568,0,3635,2,
2106,3569,3636,0,
3571,0,3637,2,
3570,3503,3638,0,
3572,0,3639,2,
3573,3557,3640,0,
3575,0,3641,2,
3576,0,3642,2,
3405,3578,3643,0,
3577,3511,3644,0,
3580,0,3645,2,
1565,3563,3646,0,
3583,0,3647,2,
3584,0,3648,2,
3585,0,3649,2,
3582,0,3650,2,
2106,3588,3651,0,
1724,3586,3652,0,
3589,1770,3653,0,
3523,3557,3654,0,
2106,3590,3655,0,
3592,0,3656,2,
3462,3574,3657,0,
3526,3591,3658,0,
3595,0,3659,2,
3593,0,3660,2,
2106,3585,3661,0,
3607,0,3662,2,
3599,0,3663,2,
3532,3597,3664,0,
3598,3362,3665,0,
3604,0,3666,2,
3609,0,3667,2,
3605,0,3668,2,
3601,0,3669,2,
3613,0,3670,2,
3606,0,3671,2,
3554,0,3672,2,
3490,3557,3673,0,
1724,3564,3674,0,
3616,3455,3675,0,
3618,0,3676,2,
1991,3619,3677,0,
3620,0,3678,2,
3572,3621,3679,0,
3623,3487,3680,0,
3625,0,3681,2,
3675,0,3682,2,
3631,3369,3683,0,
3663,3600,3684,0,
3674,0,3685,2,
3673,0,3686,2,
3627,1725,3687,0,
3292,3669,3688,0,
3633,2207,3689,0,
1724,3671,3690,0,
3665,3366,3691,0,
2245,3635,3692,0,
3634,3399,3693,0,
3636,0,3694,2,
3638,3185,3695,0,
2105,3639,3696,0,
3640,0,3697,2,
3627,2248,3698,0,
3642,3509,3699,0,
3646,1635,3700,0,
3581,3645,3701,0,
2247,3635,3702,0,
2106,3650,3703,0,
3626,1724,3704,0,
3412,3649,3705,0,
2106,3648,3706,0,
2106,3647,3707,0,
3655,0,3708,2,
3653,0,3709,2,
2244,3671,3710,0,
3652,0,3711,2,
3654,0,3712,2,
3651,0,3713,2,
2246,3648,3714,0,
3658,0,3715,2,
3657,0,3716,2,
3626,1725,3717,0,
3465,3659,3718,0,
3661,0,3719,2,
1724,3628,3720,0,
3627,2207,3721,0,
1724,3629,3722,0,
3633,1725,3723,0,
3545,3667,3724,0,
2244,3626,3725,0,
2248,3633,3726,0,
3633,1724,3727,0,
3627,1724,3728,0,
1725,3628,3729,0,
3632,169,3730,0,
3664,3541,3731,0,
2245,3626,3732,0,
2246,3629,3733,0,
3627,2245,3734,0,
3677,3622,3735,0,
3679,0,3736,2,
3678,3560,3737,0,
2105,3681,3738,0,
3731,0,3739,2,
3725,0,3740,2,
3668,3724,3741,0,
3734,0,3742,2,
3689,0,3743,2,
3723,0,3744,2,
3727,2106,3745,0,
3690,0,3746,2,
3729,0,3747,2,
3726,0,3748,2,
3733,0,3749,2,
3732,0,3750,2,
3692,0,3751,2,
3693,0,3752,2,
3694,3350,3753,0,
3696,0,3754,2,
3698,0,3755,2,
3510,3697,3756,0,
3701,2245,3757,0,
3707,0,3758,2,
3704,2105,3759,0,
3705,0,3760,2,
3706,1724,3761,0,
3703,0,3762,2,
3702,0,3763,2,
3712,3594,3764,0,
2106,3681,3765,0,
3711,3596,3766,0,
3656,3713,3767,0,
3710,0,3768,2,
1724,3682,3769,0,
3714,0,3770,2,
2106,3676,3771,0,
3722,0,3772,2,
3717,0,3773,2,
3728,0,3774,2,
3416,3719,3775,0,
3720,0,3776,2,
3721,0,3777,2,
3684,3390,3778,0,
3686,3685,3779,0,
3687,0,3780,2,
2246,3682,3781,0,
3735,0,3782,2,
3737,3680,3783,0,
2106,3736,3784,0,
3738,0,3785,2,
3781,0,3786,2,
3566,3748,3787,0,
3776,3549,3788,0,
3771,0,3789,2,
3400,3751,3790,0,
3637,3752,3791,0,
3745,0,3792,2,
3754,3641,3793,0,
3643,3755,3794,0,
3699,3756,3795,0,
3757,0,3796,2,
3759,0,3797,2,
3709,3762,3798,0,
3529,3758,3799,0,
3317,3763,3800,0,
2105,3760,3801,0,
3779,0,3802,2,
3761,0,3803,2,
3768,3716,3804,0,
3767,3365,3805,0,
3766,3230,3806,0,
3497,3746,3807,0,
3765,0,3808,2,
3683,3744,3809,0,
3631,3744,3810,0,
3741,3740,3811,0,
3775,3420,3812,0,
3773,3772,3813,0,
2242,3739,3814,0,
3774,3610,3815,0,
3747,3395,3816,0,
3770,3418,3817,0,
3743,3492,3818,0,
3749,3750,3819,0,
3769,0,3820,2,
3819,3672,3821,0,
3688,3788,3822,0,
3782,3624,3823,0,
3783,0,3824,2,
3784,0,3825,2,
3812,0,3826,2,
3666,3785,3827,0,
3780,3820,3828,0,
3448,3792,3829,0,
2105,3802,3830,0,
3815,0,3831,2,
3817,3816,3832,0,
3809,0,3833,2,
3567,3789,3834,0,
3811,0,3835,2,
3808,3542,3836,0,
3814,0,3837,2,
3795,3579,3838,0,
3791,3753,3839,0,
3790,3695,3840,0,
3792,3448,3841,0,
3793,3644,3842,0,
3796,3708,3843,0,
3468,3803,3844,0,
3799,3715,3845,0,
3801,0,3846,2,
2106,3802,3847,0,
3797,3660,3848,0,
3798,3800,3849,0,
3813,0,3850,2,
3804,3805,3851,0,
3807,0,3852,2,
3806,3602,3853,0,
3810,0,3854,2,
3786,3742,3855,0,
2106,3831,3856,0,
3823,3210,3857,0,
3346,3825,3858,0,
3851,0,3859,2,
3838,0,3860,2,
3434,3833,3861,0,
3827,3787,3862,0,
3845,3844,3863,0,
3834,0,3864,2,
3794,3842,3865,0,
2105,3854,3866,0,
3839,3840,3867,0,
3841,3454,3868,0,
3834,3700,3869,0,
3843,3764,3870,0,
2105,3852,3871,0,
3691,3837,3872,0,
3829,0,3873,2,
2106,3850,3874,0,
3537,3846,3875,0,
3630,3832,3876,0,
3830,0,3877,2,
3848,3849,3878,0,
3822,3821,3879,0,
3847,0,3880,2,
3828,0,3881,2,
3865,0,3882,2,
3863,0,3883,2,
3857,0,3884,2,
3855,3858,3885,0,
3879,0,3886,2,
3860,3835,3887,0,
3878,0,3888,2,
3862,0,3889,2,
3881,2106,3890,0,
3872,3877,3891,0,
3876,3818,3892,0,
3866,0,3893,2,
3867,0,3894,2,
3868,0,3895,2,
3869,0,3896,2,
3867,3059,3897,0,
3874,0,3898,2,
3856,0,3899,2,
3871,0,3900,2,
3870,3718,3901,0,
3778,3880,3902,0,
3883,3859,3903,0,
3884,3824,3904,0,
3867,0,3905,2,
3824,3884,3906,0,
3892,0,3907,2,
3885,0,3908,2,
3891,0,3909,2,
3901,0,3910,2,
3895,3826,3911,0,
3875,3898,3912,0,
3902,0,3913,2,
3859,3889,3914,0,
3883,3835,3915,0,
3882,3889,3916,0,
3889,3835,3917,0,
3897,1635,3918,0,
3670,3899,3919,0,
3777,3900,3920,0,
3836,3893,3921,0,
3890,0,3922,2,
3904,0,3923,2,
3912,0,3924,2,
3919,0,3925,2,
3861,3913,3926,0,
3921,0,3927,2,
3906,3905,3928,0,
3907,3886,3929,0,
3882,3910,3930,0,
3920,3853,3931,0,
3904,3826,3932,0,
3481,3922,3933,0,
3905,3888,3934,0,
3882,3907,3935,0,
3915,3908,3936,0,
3908,3883,3937,0,
3909,3888,3938,0,
3908,3864,3939,0,
3918,0,3940,2,
3873,3917,3941,0,
3882,3903,3942,0,
3909,3607,3943,0,
3931,0,3944,2,
3903,3924,3945,0,
3928,0,3946,2,
3909,3927,3947,0,
3926,3908,3948,0,
3942,3907,3949,0,
3934,3924,3950,0,
3941,3932,3951,0,
3924,3913,3952,0,
3924,3859,3953,0,
3933,0,3954,2,
3938,3935,3955,0,
3937,3859,3956,0,
3928,3563,3957,0,
1719,3923,3958,0,
1565,3940,3959,0,
3860,3925,3960,0,
3926,3927,3961,0,
3895,3954,3962,0,
3923,0,3963,2,
3954,3925,3964,0,
3888,3944,3965,0,
3945,3887,3966,0,
3947,3930,3967,0,
3943,3960,3968,0,
3914,3952,3969,0,
3935,3944,3970,0,
3059,0,3971,2,
3953,3937,3972,0,
3944,3886,3973,0,
3907,3944,3974,0,
3939,3954,3975,0,
3886,3944,3976,0,
3489,3963,3977,0,
3929,3965,3978,0,
3966,3948,3979,0,
3911,3964,3980,0,
3950,3968,3981,0,
3976,3910,3982,0,
3936,3969,3983,0,
3970,3886,3984,0,
3974,3882,3985,0,
3955,3973,3986,0,
3905,3971,3987,0,
3972,3889,3988,0,
3962,3925,3989,0,
3972,3913,3990,0,
3961,3975,3991,0,
3977,0,3992,2,
3978,3967,3993,0,
3980,3979,3994,0,
3982,3949,3995,0,
3979,3954,3996,0,
3984,3909,3997,0,
3923,3987,3998,1,
3989,3979,3999,0,
3979,3864,4000,0,
3962,3979,4001,0,
3986,3910,4002,0,
3951,3991,4003,0,
3946,3992,4004,0,
3994,3993,4005,0,
3995,3981,4006,0,
3983,3993,4007,0,
3993,3889,4008,0,
3993,3908,4009,0,
3992,3862,4010,1,
3998,0,4011,2,
3998,2090,4012,0,
3993,3980,4013,0,
4004,0,4014,2,
4003,4006,4015,0,
4010,3957,4016,1,
3700,4011,4017,0,
3958,4012,4018,0,
3999,4008,4019,0,
4013,4000,4020,0,
4014,3889,4021,0,
4015,0,4022,2,
4019,4014,4023,0,
3996,4014,4024,0,
3979,4014,4025,0,
4007,4014,4026,0,
3993,4014,4027,0,
3956,4014,4028,0,
3937,4014,4029,0,
3916,4014,4030,0,
3700,4016,4031,0,
3587,4016,4032,0,
4017,0,4033,2,
4018,0,4034,2,
4001,4014,4035,0,
4008,4014,4036,0,
4035,4008,4037,0,
4021,4002,4038,0,
4022,3632,4039,0,
4036,3990,4040,0,
4021,3935,4041,0,
4021,3985,4042,0,
4021,4009,4043,0,
4026,0,4044,2,
4021,3993,4045,0,
4021,3986,4046,0,
4025,4008,4047,0,
4021,3997,4048,0,
4021,3984,4049,0,
4005,4021,4050,0,
4027,3988,4051,0,
4029,4008,4052,0,
4024,4008,4053,0,
4028,4008,4054,0,
4021,0,4055,2,
4025,4008,4056,0,
3907,4030,4057,1,
3826,4023,4058,1,
4026,3860,4059,0,
4027,3988,4060,0,
4022,3730,4061,0,
4032,0,4062,2,
4031,0,4063,2,
1324,4034,4064,0,
4020,4021,4065,0,
3662,4065,4066,1,
4039,0,4067,2,
4044,3838,4068,1,
3835,4040,4069,1,
3895,4053,4070,1,
3908,4045,4071,1,
3910,4046,4072,1,
3864,4050,4073,1,
3924,4054,4074,1,
3954,4047,4075,1,
3909,4049,4076,1,
3888,4048,4077,1,
3925,4037,4078,1,
4055,3865,4079,1,
3883,4043,4080,1,
3859,4052,4081,1,
3913,4051,4082,1,
3944,4041,4083,1,
4050,0,4084,2,
3886,4042,4085,1,
3927,4038,4086,1,
3861,4059,4087,1,
3587,4058,4088,0,
3954,4056,4089,1,
3700,4057,4090,0,
3913,4060,4091,1,
4061,27,4092,0,
3700,4058,4093,0,
4061,23,4094,0,
4061,28,4095,0,
4061,26,4096,0,
3587,4057,4097,0,
4061,165,4098,0,
4062,4033,4099,0,
4061,25,4100,0,
4061,24,4101,0,
4064,0,4102,2,
1987,4067,4103,0,
4101,0,4104,2,
35,4067,4105,0,
3700,4085,4106,0,
3700,4081,4107,0,
3587,4074,4108,0,
574,4067,4109,0,
3587,4075,4110,0,
3587,4068,4111,0,
3700,4083,4112,0,
3587,4078,4113,0,
3587,4070,4114,0,
3700,4079,4115,0,
3587,4069,4116,0,
3700,4080,4117,0,
3587,4073,4118,0,
3700,4084,4119,0,
3587,4072,4120,0,
3700,4086,4121,0,
3587,4083,4122,0,
382,4067,4123,0,
3587,4086,4124,0,
1266,4067,4125,0,
3587,4071,4126,0,
3587,4085,4127,0,
3700,4068,4128,0,
3700,4072,4129,0,
679,4067,4130,0,
3700,4076,4131,0,
809,4067,4132,0,
3587,4077,4133,0,
3587,4082,4134,0,
3587,4076,4135,0,
3587,4080,4136,0,
3700,4077,4137,0,
3587,4081,4138,0,
4088,0,4139,2,
3700,4078,4140,0,
3700,4091,4141,0,
3700,4087,4142,0,
4090,0,4143,2,
3700,4071,4144,0,
3587,4087,4145,0,
3700,4089,4146,0,
3587,4079,4147,0,
3700,4069,4148,0,
3700,4074,4149,0,
3700,4070,4150,0,
4095,0,4151,2,
4097,0,4152,2,
4098,0,4153,2,
4092,0,4154,2,
4096,0,4155,2,
4094,0,4156,2,
4093,0,4157,2,
1912,4066,4158,0,
1581,4099,4159,0,
380,4067,4160,0,
4100,0,4161,2,
4066,0,4162,2,
477,4067,4163,0,
1719,4066,4164,0,
1635,4104,4165,0,
4103,0,4166,2,
4105,0,4167,2,
3587,4162,4168,0,
4109,0,4169,2,
4113,0,4170,2,
4130,0,4171,2,
4115,0,4172,2,
4128,0,4173,2,
4138,0,4174,2,
4132,0,4175,2,
4123,0,4176,2,
4117,0,4177,2,
4118,0,4178,2,
3896,4119,4179,1,
4135,0,4180,2,
4133,0,4181,2,
4106,0,4182,2,
4131,0,4183,2,
4137,0,4184,2,
4136,0,4185,2,
4108,0,4186,2,
4110,0,4187,2,
4134,0,4188,2,
4126,0,4189,2,
4124,0,4190,2,
4125,0,4191,2,
4129,0,4192,2,
4122,0,4193,2,
4116,0,4194,2,
4121,0,4195,2,
4120,0,4196,2,
4127,0,4197,2,
4107,0,4198,2,
4114,0,4199,2,
4112,0,4200,2,
4111,0,4201,2,
4150,0,4202,2,
4148,0,4203,2,
4140,0,4204,2,
4146,0,4205,2,
4144,0,4206,2,
4142,0,4207,2,
4149,0,4208,2,
4147,0,4209,2,
4141,0,4210,2,
4145,0,4211,2,
4160,0,4212,2,
4163,0,4213,2,
4158,0,4214,2,
4159,0,4215,2,
4168,0,4216,2,
4191,1635,4217,0,
4186,4198,4218,0,
4192,4190,4219,0,
4197,4200,4220,0,
4181,4183,4221,0,
4182,4180,4222,0,
4193,4143,4223,0,
4196,4184,4224,0,
4195,4189,4225,0,
4174,4177,4226,0,
4176,4213,4227,0,
4171,1635,4228,0,
4175,1635,4229,0,
4167,1635,4230,0,
4169,1635,4231,0,
4209,4063,4232,0,
4139,4204,4233,0,
1635,4212,4234,0,
4166,2032,4235,0,
4217,4153,4236,0,
4211,4173,4237,0,
4216,4179,4238,0,
4188,4208,4239,0,
4172,4152,4240,0,
4231,4155,4241,0,
4157,4178,4242,0,
4230,4156,4243,0,
4229,4151,4244,0,
4228,4154,4245,0,
4203,4201,4246,0,
4170,4202,4247,0,
4207,4187,4248,0,
4194,4210,4249,0,
4206,4185,4250,0,
4205,4199,4251,0,
4227,4165,4252,0,
4234,4161,4253,0,
4233,0,4254,2,
4232,0,4255,2,
4235,4214,4256,0,
4247,0,4257,2,
4218,0,4258,2,
4238,0,4259,2,
4253,0,4260,2,
4249,0,4261,2,
4242,0,4262,2,
4243,0,4263,2,
4251,0,4264,2,
4244,0,4265,2,
4236,0,4266,2,
4241,0,4267,2,
4245,0,4268,2,
4239,0,4269,2,
4222,0,4270,2,
4223,0,4271,2,
4250,0,4272,2,
4226,0,4273,2,
4252,0,4274,2,
4219,0,4275,2,
4220,0,4276,2,
4225,0,4277,2,
4240,0,4278,2,
4224,0,4279,2,
4237,0,4280,2,
4246,0,4281,2,
4221,0,4282,2,
4248,0,4283,2,
0,0,4284,1,
4284,4215,4285,1,
4284,4255,4286,1,
4284,4278,4287,1,
4284,4271,4288,1,
4284,4276,4289,1,
4284,4270,4290,1,
4284,4282,4291,1,
4284,4279,4292,1,
4284,4275,4293,1,
4284,4277,4294,1,
4284,4272,4295,1,
4284,4273,4296,1,
4284,4258,4297,1,
4284,4269,4298,1,
4284,4261,4299,1,
4284,4281,4300,1,
4284,4280,4301,1,
4284,4283,4302,1,
4284,4264,4303,1,
4284,4257,4304,1,
4284,4254,4305,1,
4284,4262,4306,1,
4284,4259,4307,1,
4284,4256,4308,1,
4284,4263,4309,1,
4284,4274,4310,1,
4284,4260,4311,1,
4284,4267,4312,1,
4284,4268,4313,1,
4284,4265,4314,1,
4284,4266,4315,1,
