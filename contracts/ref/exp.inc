1,4,32,0,
3,0,33,0,
8,3,34,0,
22,4,35,0,
3,21,36,0,
3,12,37,0,
5,21,38,0,
24,0,39,2,
23,0,40,2,
24,25,41,0,
25,0,42,2,
28,0,43,2,
27,0,44,2,
31,0,45,2,
6,15,46,0,
22,12,47,0,
22,14,48,0,
22,10,49,0,
29,0,50,2,
30,0,51,2,
26,27,52,0,
28,29,53,0,
23,24,54,0,
26,0,55,2,
32,0,56,2,
33,0,57,2,
34,0,58,2,
37,0,59,2,
38,0,60,2,
39,23,61,1,
23,41,62,0,
42,54,63,1,
46,0,64,2,
47,0,65,2,
48,0,66,2,
49,0,67,2,
55,42,68,0,
39,40,69,0,
43,44,70,0,
50,51,71,0,
56,57,72,0,
61,0,73,2,
23,61,74,0,
61,40,75,0,
62,0,76,2,
63,0,77,2,
62,26,78,0,
52,62,79,0,
69,68,80,0,
70,71,81,0,
72,0,82,2,
73,40,83,0,
23,73,84,0,
76,26,85,1,
53,79,86,0,
44,78,87,1,
79,0,88,2,
79,28,89,0,
80,81,90,0,
90,0,91,2,
85,0,92,2,
77,85,93,0,
30,86,94,0,
63,85,95,0,
30,86,96,0,
50,89,97,1,
87,0,98,2,
88,28,99,1,
86,30,100,1,
86,0,101,2,
2,91,102,0,
4,91,103,0,
3,91,104,0,
21,91,105,0,
6,91,106,0,
15,91,107,0,
19,91,108,0,
5,91,109,0,
13,91,110,0,
7,91,111,0,
18,91,112,0,
22,91,113,0,
10,91,114,0,
9,91,115,0,
20,91,116,0,
1,91,117,0,
8,91,118,0,
16,91,119,0,
17,91,120,0,
14,91,121,0,
11,91,122,0,
12,91,123,0,
0,91,124,0,
92,63,125,0,
96,0,126,2,
101,51,127,0,
91,40,128,0,
99,87,129,0,
93,74,130,0,
77,92,131,0,
93,75,132,0,
93,73,133,0,
99,0,134,2,
94,0,135,2,
85,97,136,0,
45,94,137,0,
31,94,138,0,
102,0,139,2,
104,0,140,2,
109,0,141,2,
103,0,142,2,
102,109,143,1,
106,0,144,2,
106,104,145,1,
111,0,146,2,
115,0,147,2,
121,0,148,2,
118,0,149,2,
103,2,150,0,
119,0,151,2,
107,0,152,2,
110,0,153,2,
105,108,154,1,
123,0,155,2,
117,0,156,2,
105,3,157,0,
120,0,158,2,
112,0,159,2,
106,104,160,1,
114,0,161,2,
109,3,162,0,
124,0,163,2,
122,0,164,2,
115,4,165,0,
114,7,166,0,
113,4,167,0,
109,2,168,0,
122,0,169,0,
108,0,170,2,
106,3,171,0,
111,4,172,0,
122,5,173,0,
8,106,174,0,
116,0,175,2,
113,0,176,2,
105,0,177,2,
102,113,178,1,
116,11,179,0,
91,135,180,0,
115,13,181,0,
119,7,182,0,
123,8,183,0,
122,15,184,0,
112,17,185,0,
116,21,186,0,
105,113,187,1,
97,126,188,0,
127,0,189,2,
128,61,190,0,
134,87,191,0,
98,134,192,0,
131,73,193,0,
100,129,194,0,
137,0,195,2,
138,0,196,2,
139,103,197,1,
140,105,198,1,
141,91,199,0,
140,109,200,1,
142,113,201,1,
143,0,202,2,
142,118,203,1,
140,111,204,1,
144,118,205,1,
146,109,206,1,
145,116,207,1,
103,149,208,0,
104,146,209,0,
140,149,210,0,
142,115,211,1,
144,149,212,0,
156,142,213,0,
146,114,214,1,
154,0,215,2,
142,106,216,1,
141,122,217,1,
104,144,218,0,
141,118,219,1,
142,4,220,1,
220,111,221,0,
142,221,222,1,
146,141,223,0,
160,0,224,2,
156,103,225,1,
163,122,226,1,
140,114,227,1,
163,109,228,1,
162,0,229,2,
139,115,230,1,
156,118,231,1,
8,156,232,0,
10,140,233,0,
5,163,234,0,
166,0,235,2,
165,0,236,2,
102,141,237,0,
106,140,238,0,
115,139,239,0,
118,141,240,0,
111,142,241,0,
142,146,242,0,
1,145,243,0,
171,0,244,2,
20,145,245,0,
169,0,246,2,
145,117,247,1,
142,144,248,0,
172,0,249,2,
168,0,250,2,
141,115,251,1,
174,0,252,2,
170,177,253,0,
142,176,254,0,
111,140,255,0,
178,0,256,2,
117,142,257,0,
164,116,258,1,
144,114,259,1,
115,141,260,0,
149,8,261,1,
261,123,262,0,
149,262,263,1,
140,155,264,0,
141,177,265,0,
114,144,266,0,
113,139,267,0,
179,0,268,2,
91,195,269,0,
176,116,270,1,
147,153,271,0,
181,0,272,2,
152,91,273,0,
144,152,274,0,
153,119,275,1,
155,176,276,0,
164,107,277,1,
161,121,278,1,
123,149,279,0,
146,151,280,0,
182,0,281,2,
158,91,282,0,
149,155,283,0,
121,161,284,0,
164,121,285,1,
13,151,286,0,
148,176,287,0,
152,112,288,1,
183,0,289,2,
110,147,290,0,
161,176,291,0,
184,0,292,2,
170,91,293,0,
15,159,294,0,
116,151,295,0,
119,175,296,0,
158,108,297,1,
120,170,298,0,
170,151,299,0,
158,112,300,1,
122,148,301,0,
185,0,302,2,
108,177,303,0,
116,176,304,0,
177,116,305,1,
186,0,306,2,
105,176,307,0,
188,189,308,0,
188,0,309,2,
192,127,310,0,
194,136,311,0,
180,0,312,2,
180,45,313,0,
197,106,314,1,
198,108,315,1,
199,0,316,2,
200,113,317,1,
201,116,318,1,
202,0,319,2,
203,112,320,1,
204,115,321,1,
197,111,322,1,
205,114,323,1,
206,107,324,1,
198,0,325,2,
197,0,326,2,
204,147,327,0,
207,120,328,1,
112,203,329,0,
208,0,330,2,
205,0,331,2,
210,0,332,2,
205,119,333,1,
200,0,334,2,
206,0,335,2,
211,0,336,2,
216,115,337,1,
211,106,338,1,
201,0,339,2,
217,115,340,1,
213,0,341,2,
152,215,342,1,
212,0,343,2,
214,0,344,2,
219,110,345,1,
218,0,346,2,
199,21,347,0,
222,123,348,1,
224,122,349,1,
223,0,350,2,
110,219,351,0,
214,124,352,1,
17,207,353,0,
216,0,354,2,
204,110,355,1,
226,0,356,2,
123,222,357,0,
225,118,358,1,
241,0,359,2,
239,0,360,2,
242,0,361,2,
202,163,362,0,
233,0,363,2,
240,0,364,2,
234,0,365,2,
232,0,366,2,
238,0,367,2,
237,0,368,2,
243,0,369,2,
168,247,370,0,
222,2,371,1,
247,0,372,2,
245,0,373,2,
217,0,374,2,
215,0,375,2,
251,122,376,1,
253,0,377,2,
110,204,378,0,
254,0,379,2,
255,0,380,2,
118,225,381,0,
258,111,382,1,
259,121,383,1,
256,0,384,2,
122,251,385,0,
260,0,386,2,
263,121,387,1,
264,0,388,2,
258,0,389,2,
121,259,390,0,
265,0,391,2,
266,0,392,2,
267,0,393,2,
270,108,394,1,
310,309,395,0,
271,0,396,2,
273,0,397,2,
274,0,398,2,
277,120,399,1,
275,107,400,1,
276,0,401,2,
263,113,402,1,
273,21,403,0,
278,112,404,1,
121,263,405,0,
279,0,406,2,
280,0,407,2,
282,0,408,2,
283,0,409,2,
112,278,410,0,
277,0,411,2,
275,152,412,0,
282,21,413,0,
287,0,414,2,
285,112,415,1,
284,0,416,2,
286,0,417,2,
288,120,418,1,
291,0,419,2,
290,0,420,2,
288,158,421,0,
119,293,422,1,
271,272,423,0,
294,0,424,2,
295,0,425,2,
296,0,426,2,
298,0,427,2,
300,105,428,1,
112,285,429,0,
300,0,430,2,
301,0,431,2,
299,0,432,2,
215,112,433,0,
303,0,434,2,
108,270,435,0,
304,0,436,2,
305,91,437,0,
306,187,438,1,
307,0,439,2,
98,308,440,0,
129,308,441,0,
127,309,442,0,
134,308,443,0,
311,0,444,2,
312,196,445,0,
314,107,446,1,
315,111,447,1,
316,105,448,1,
318,118,449,1,
317,108,450,1,
319,115,451,1,
320,107,452,1,
321,0,453,2,
322,110,454,1,
323,124,455,1,
315,0,456,2,
314,0,457,2,
327,0,458,2,
6,326,459,0,
324,123,460,1,
329,0,461,2,
321,120,462,1,
107,320,463,0,
19,325,464,0,
328,107,465,1,
317,0,466,2,
119,331,467,0,
319,147,468,0,
318,0,469,2,
322,0,470,2,
22,334,471,0,
58,332,472,0,
333,122,473,1,
15,335,474,0,
7,326,475,0,
337,121,476,1,
342,123,477,1,
344,163,478,0,
338,0,479,2,
6,336,480,0,
341,82,481,0,
0,319,482,0,
338,117,483,1,
340,121,484,1,
20,339,485,0,
231,349,486,0,
333,0,487,2,
227,345,488,0,
122,346,489,0,
231,349,490,1,
347,0,491,2,
15,328,492,0,
337,0,493,2,
230,348,494,0,
324,0,495,2,
355,122,496,1,
345,0,497,2,
115,354,498,0,
357,0,499,2,
358,121,500,1,
352,202,501,1,
348,0,502,2,
351,0,503,2,
353,0,504,2,
2,361,505,0,
362,0,506,2,
352,319,507,0,
369,244,508,0,
373,244,509,0,
370,0,510,2,
372,250,511,0,
323,0,512,2,
340,0,513,2,
10,331,514,0,
115,374,515,0,
371,0,516,2,
376,117,517,1,
15,375,518,0,
12,342,519,0,
122,355,520,0,
378,0,521,2,
121,358,522,0,
381,0,523,2,
382,110,524,1,
383,102,525,1,
117,376,526,0,
385,0,527,2,
102,383,528,0,
59,388,529,0,
387,119,530,1,
389,146,531,0,
390,0,532,2,
110,382,533,0,
60,391,534,0,
394,91,535,0,
396,272,536,0,
397,105,537,1,
119,387,538,0,
64,398,539,0,
65,401,540,0,
400,116,541,1,
399,118,542,1,
402,116,543,1,
403,0,544,2,
405,0,545,2,
404,106,546,1,
106,404,547,0,
407,281,548,0,
400,0,549,2,
399,0,550,2,
402,0,551,2,
22,409,552,0,
408,105,553,1,
17,411,554,0,
410,0,555,2,
412,0,556,2,
413,0,557,2,
415,110,558,1,
66,414,559,0,
67,419,560,0,
418,0,561,2,
152,422,562,1,
421,0,563,2,
425,426,564,0,
15,422,565,0,
423,0,566,2,
415,153,567,0,
428,295,568,1,
21,430,569,0,
428,0,570,2,
429,0,571,2,
375,112,572,1,
433,0,573,2,
435,0,574,2,
437,0,575,2,
439,306,576,0,
440,99,577,0,
395,0,578,2,
191,442,579,0,
441,0,580,2,
395,85,581,0,
441,93,582,0,
442,192,583,0,
395,95,584,0,
395,125,585,0,
441,95,586,0,
443,87,587,0,
444,189,588,0,
445,0,589,2,
446,110,590,1,
447,109,591,1,
448,115,592,1,
450,120,593,1,
449,106,594,1,
451,108,595,1,
452,110,596,1,
447,0,597,2,
454,119,598,1,
17,453,599,0,
446,153,600,0,
7,456,601,0,
110,452,602,0,
455,110,603,1,
457,152,604,0,
330,461,605,0,
463,0,606,2,
462,121,607,1,
450,0,608,2,
464,0,609,2,
460,114,610,1,
459,0,611,2,
465,123,612,1,
451,0,613,2,
19,466,614,0,
448,0,615,2,
467,0,616,2,
119,454,617,0,
470,153,618,0,
465,155,619,0,
449,0,620,2,
472,0,621,2,
471,0,622,2,
8,469,623,0,
474,0,624,2,
473,110,625,1,
468,0,626,2,
462,0,627,2,
482,0,628,2,
478,0,629,2,
479,156,630,0,
473,0,631,2,
483,332,632,0,
480,0,633,2,
484,111,634,1,
485,0,635,2,
477,114,636,1,
476,0,637,2,
460,0,638,2,
475,0,639,2,
481,0,640,2,
14,493,641,0,
12,495,642,0,
494,0,643,2,
490,237,644,1,
488,0,645,2,
486,0,646,2,
489,0,647,2,
492,0,648,2,
11,487,649,0,
500,123,650,1,
496,119,651,1,
483,210,652,1,
364,503,653,0,
230,502,654,1,
499,359,655,0,
498,0,656,2,
227,497,657,1,
501,0,658,2,
490,368,659,0,
505,0,660,2,
484,0,661,2,
228,472,662,1,
508,371,663,0,
507,0,664,2,
14,513,665,0,
110,455,666,0,
514,0,667,2,
509,0,668,2,
512,163,669,0,
511,0,670,2,
508,0,671,2,
10,477,672,0,
515,0,673,2,
518,0,674,2,
517,110,675,1,
519,0,676,2,
119,496,677,0,
520,0,678,2,
380,521,679,0,
522,0,680,2,
123,500,681,0,
524,120,682,1,
525,119,683,1,
110,517,684,0,
386,527,685,0,
119,525,686,0,
526,0,687,2,
528,0,688,2,
529,0,689,2,
530,112,690,1,
532,392,691,0,
120,524,692,0,
531,0,693,2,
533,0,694,2,
536,0,695,2,
112,530,696,0,
534,0,697,2,
538,0,698,2,
537,108,699,1,
537,0,700,2,
542,105,701,1,
540,0,702,2,
541,0,703,2,
543,112,704,1,
152,544,705,0,
116,546,706,0,
546,116,707,1,
406,545,708,0,
542,0,709,2,
548,0,710,2,
539,0,711,2,
547,0,712,2,
543,0,713,2,
552,0,714,2,
20,551,715,0,
8,550,716,0,
20,549,717,0,
553,121,718,1,
554,0,719,2,
416,555,720,0,
553,0,721,2,
158,557,722,0,
556,417,723,0,
559,0,724,2,
418,559,725,1,
558,116,726,1,
562,287,727,1,
563,424,728,0,
562,0,729,2,
560,0,730,2,
564,0,731,2,
297,564,732,1,
565,0,733,2,
558,0,734,2,
567,0,735,2,
570,425,736,0,
569,0,737,2,
431,571,738,0,
572,113,739,1,
572,0,740,2,
573,434,741,0,
574,436,742,0,
535,0,743,2,
576,91,744,0,
577,95,745,0,
193,579,746,0,
579,131,747,0,
579,92,748,0,
583,92,749,0,
583,131,750,0,
193,583,751,0,
95,587,752,0,
588,0,753,2,
590,112,754,1,
591,114,755,1,
592,111,756,1,
593,121,757,1,
594,122,758,1,
595,119,759,1,
590,0,760,2,
596,114,761,1,
591,0,762,2,
599,0,763,2,
593,0,764,2,
5,597,765,0,
598,122,766,1,
602,0,767,2,
600,0,768,2,
604,0,769,2,
603,120,770,1,
601,0,771,2,
612,114,772,1,
17,608,773,0,
592,0,774,2,
108,613,775,0,
612,0,776,2,
595,0,777,2,
607,123,778,1,
610,117,779,1,
596,161,780,0,
594,0,781,2,
598,164,782,0,
115,615,783,0,
614,0,784,2,
343,616,785,0,
607,0,786,2,
14,627,787,0,
228,621,788,0,
6,620,789,0,
617,0,790,2,
619,0,791,2,
623,0,792,2,
625,102,793,1,
350,624,794,0,
229,622,795,0,
610,0,796,2,
618,0,797,2,
356,637,798,0,
636,118,799,1,
10,638,800,0,
634,112,801,1,
630,0,802,2,
629,235,803,0,
632,0,804,2,
236,633,805,0,
628,640,806,0,
625,0,807,2,
605,0,808,2,
13,631,809,0,
603,158,810,0,
366,646,811,0,
504,648,812,0,
647,367,813,0,
363,645,814,0,
360,643,815,0,
649,0,816,2,
226,637,817,1,
641,0,818,2,
644,0,819,2,
642,0,820,2,
650,120,821,1,
655,0,822,2,
657,655,823,1,
651,115,824,1,
657,0,825,2,
653,0,826,2,
654,0,827,2,
652,0,828,2,
634,0,829,2,
660,249,830,0,
659,0,831,2,
7,661,832,0,
8,636,833,0,
663,0,834,2,
662,0,835,2,
516,671,836,0,
666,0,837,2,
669,0,838,2,
252,667,839,0,
665,0,840,2,
115,651,841,0,
672,0,842,2,
677,0,843,2,
377,674,844,0,
675,107,845,1,
120,650,846,0,
679,0,847,2,
523,680,848,0,
681,0,849,2,
682,107,850,1,
683,108,851,1,
107,675,852,0,
684,0,853,2,
686,0,854,2,
685,0,855,2,
19,683,856,0,
690,103,857,1,
107,682,858,0,
692,0,859,2,
268,693,860,0,
691,0,861,2,
695,120,862,1,
696,0,863,2,
699,0,864,2,
4,690,865,0,
695,91,866,0,
19,700,867,0,
701,108,868,1,
702,703,869,1,
704,119,870,1,
701,0,871,2,
707,91,872,0,
706,0,873,2,
705,0,874,2,
704,0,875,2,
707,0,876,2,
708,0,877,2,
112,713,878,0,
21,709,879,0,
702,703,880,0,
120,695,881,0,
715,0,882,2,
718,110,883,1,
714,289,884,0,
716,0,885,2,
717,0,886,2,
718,0,887,2,
719,292,888,0,
14,721,889,0,
722,0,890,2,
723,0,891,2,
726,560,892,1,
720,0,893,2,
561,724,894,0,
725,722,895,1,
699,123,896,1,
727,728,897,1,
726,0,898,2,
729,414,899,0,
728,0,900,2,
297,731,901,0,
732,299,902,1,
20,734,903,0,
732,0,904,2,
738,0,905,2,
302,737,906,0,
736,0,907,2,
739,0,908,2,
113,740,909,0,
741,0,910,2,
742,0,911,2,
741,743,912,0,
744,0,913,2,
744,176,914,0,
754,115,915,1,
755,117,916,1,
756,123,917,1,
758,102,918,1,
755,0,919,2,
757,123,920,1,
759,121,921,1,
112,760,922,0,
761,117,923,1,
10,762,924,0,
765,0,925,2,
764,148,926,0,
763,458,927,0,
761,0,928,2,
757,155,929,0,
754,147,930,0,
758,0,931,2,
766,112,932,1,
759,0,933,2,
766,0,934,2,
756,0,935,2,
606,767,936,0,
611,769,937,0,
770,108,938,1,
609,771,939,0,
776,161,940,0,
7,774,941,0,
773,0,942,2,
780,0,943,2,
119,777,944,0,
779,0,945,2,
775,0,946,2,
772,117,947,1,
778,124,948,1,
12,786,949,0,
783,0,950,2,
778,0,951,2,
785,0,952,2,
11,781,953,0,
782,0,954,2,
1,796,955,0,
793,0,956,2,
770,0,957,2,
794,0,958,2,
788,0,959,2,
789,0,960,2,
792,635,961,0,
639,797,962,0,
787,0,963,2,
799,106,964,1,
801,116,965,1,
805,0,966,2,
1,772,967,0,
809,0,968,2,
2,807,969,0,
795,0,970,2,
798,0,971,2,
806,0,972,2,
800,0,973,2,
804,802,974,0,
803,0,975,2,
814,0,976,2,
815,0,977,2,
817,653,978,1,
817,0,979,2,
813,0,980,2,
654,813,981,1,
811,0,982,2,
810,0,983,2,
779,248,984,1,
818,656,985,0,
812,0,986,2,
824,113,987,1,
821,114,988,1,
825,822,989,0,
829,159,990,0,
832,0,991,2,
6,799,992,0,
830,0,993,2,
823,815,994,1,
830,662,995,0,
833,0,996,2,
670,834,997,0,
824,176,998,0,
840,673,999,0,
836,0,1000,2,
801,0,1001,2,
837,838,1002,0,
839,0,1003,2,
841,0,1004,2,
676,842,1005,0,
10,821,1006,0,
845,112,1007,1,
843,678,1008,0,
844,0,1009,2,
846,0,1010,2,
848,0,1011,2,
112,845,1012,0,
850,104,1013,1,
851,91,1014,0,
852,0,1015,2,
687,853,1016,0,
688,854,1017,0,
856,0,1018,2,
103,850,1019,0,
857,534,1020,1,
859,694,1021,0,
858,0,1022,2,
862,109,1023,1,
863,698,1024,0,
857,697,1025,0,
12,864,1026,0,
865,0,1027,2,
866,0,1028,2,
860,0,1029,2,
867,0,1030,2,
868,0,1031,2,
109,862,1032,0,
869,705,1033,1,
19,871,1034,0,
870,0,1035,2,
712,873,1036,0,
548,876,1037,0,
119,875,1038,0,
869,874,1039,0,
710,872,1040,1,
881,0,1041,2,
879,0,1042,2,
870,115,1043,1,
878,0,1044,2,
880,0,1045,2,
13,887,1046,0,
866,21,1047,0,
883,276,1048,1,
883,0,1049,2,
889,0,1050,2,
725,890,1051,0,
884,0,1052,2,
894,0,1053,2,
888,0,1054,2,
892,423,1055,1,
896,0,1056,2,
895,0,1057,2,
897,0,1058,2,
892,566,1059,0,
899,0,1060,2,
898,730,1061,0,
727,900,1062,0,
901,0,1063,2,
903,0,1064,2,
904,432,1065,0,
906,0,1066,2,
909,0,1067,2,
910,535,1068,1,
911,437,1069,1,
912,0,1070,2,
911,575,1071,0,
914,0,1072,2,
915,91,1073,0,
916,119,1074,1,
917,104,1075,1,
916,0,1076,2,
918,120,1077,1,
1,919,1078,0,
920,118,1079,1,
921,122,1080,1,
920,0,1081,2,
923,209,1082,1,
924,0,1083,2,
917,0,1084,2,
918,0,1085,2,
922,0,1086,2,
926,0,1087,2,
2,931,1088,0,
932,0,1089,2,
929,0,1090,2,
927,0,1091,2,
923,0,1092,2,
1,928,1093,0,
112,934,1094,0,
12,935,1095,0,
936,0,1096,2,
938,339,1097,1,
121,933,1098,0,
937,0,1099,2,
921,0,1100,2,
944,0,1101,2,
784,942,1102,0,
941,0,1103,2,
948,0,1104,2,
947,168,1105,1,
932,105,1106,1,
930,0,1107,2,
940,0,1108,2,
946,626,1109,0,
945,144,1110,0,
939,0,1111,2,
953,0,1112,2,
950,491,1113,0,
790,954,1114,0,
949,0,1115,2,
0,951,1116,0,
957,170,1117,0,
955,0,1118,2,
168,947,1119,0,
365,959,1120,0,
958,956,1121,0,
961,0,1122,2,
962,0,1123,2,
246,971,1124,0,
819,975,1125,0,
974,0,1126,2,
966,658,1127,0,
506,972,1128,0,
966,658,1129,1,
967,0,1130,2,
969,0,1131,2,
965,91,1132,0,
968,816,1133,0,
964,102,1134,1,
820,973,1135,0,
948,785,1136,1,
978,976,1137,0,
979,826,1138,0,
981,982,1139,0,
827,980,1140,0,
985,0,1141,2,
984,985,1142,1,
958,956,1143,1,
984,0,1144,2,
823,977,1145,0,
938,201,1146,0,
975,819,1147,1,
988,91,1148,0,
987,0,1149,2,
987,116,1150,1,
990,0,1151,2,
964,139,1152,0,
989,0,1153,2,
981,811,1154,1,
835,993,1155,0,
992,0,1156,2,
978,814,1157,1,
995,0,1158,2,
994,0,1159,2,
998,0,1160,2,
1002,0,1161,2,
965,1001,1162,0,
999,0,1163,2,
1005,0,1164,2,
1007,256,1165,1,
1006,0,1166,2,
1008,0,1167,2,
1010,849,1168,0,
1007,384,1169,0,
1012,0,1170,2,
1013,103,1171,1,
1014,0,1172,2,
1016,0,1173,2,
1014,689,1174,0,
1018,91,1175,0,
1020,860,1176,1,
1019,0,1177,2,
1017,0,1178,2,
1041,420,1179,0,
1023,108,1180,1,
1025,0,1181,2,
1024,0,1182,2,
1020,0,1183,2,
1021,0,1184,2,
1028,105,1185,1,
1026,0,1186,2,
108,1023,1187,0,
7,1031,1188,0,
1033,0,1189,2,
1032,0,1190,2,
1034,0,1191,2,
146,1031,1192,1,
115,1035,1193,0,
1039,0,1194,2,
1037,0,1195,2,
1038,0,1196,2,
1043,122,1197,1,
885,1042,1198,0,
886,1045,1199,0,
1044,882,1200,0,
1040,0,1201,2,
723,1048,1202,1,
1049,401,1203,0,
1046,0,1204,2,
891,1048,1205,0,
1047,0,1206,2,
1036,0,1207,2,
1051,0,1208,2,
1043,0,1209,2,
1055,0,1210,2,
164,1056,1211,1,
1061,0,1212,2,
1059,0,1213,2,
1062,0,1214,2,
1060,733,1215,0,
427,1063,1216,0,
735,1064,1217,0,
11,1056,1218,0,
1065,0,1219,2,
1066,908,1220,1,
908,1066,1221,0,
1068,0,1222,2,
1069,912,1223,1,
1069,0,1224,2,
438,1071,1225,1,
1071,438,1226,0,
1073,0,1227,2,
1074,121,1228,1,
1076,151,1229,0,
1074,148,1230,0,
1073,20,1231,0,
1075,112,1232,1,
1078,0,1233,2,
1077,107,1234,1,
1079,0,1235,2,
8,1081,1236,0,
1075,0,1237,2,
1080,124,1238,1,
768,1086,1239,0,
1085,158,1240,0,
3,1084,1241,0,
1082,0,1242,2,
925,1083,1243,0,
21,1089,1244,0,
1087,1090,1245,0,
1088,0,1246,2,
209,1092,1247,0,
1093,0,1248,2,
1097,109,1249,1,
1098,0,1250,2,
1095,0,1251,2,
1077,152,1252,0,
1079,117,1253,1,
1094,0,1254,2,
1110,142,1255,0,
1106,124,1256,1,
791,1108,1257,0,
1104,952,1258,0,
0,1080,1259,0,
1100,164,1260,0,
1105,1109,1261,1,
960,1112,1262,0,
1109,0,1263,2,
1102,0,1264,2,
1116,0,1265,2,
1082,927,1266,1,
963,1115,1267,0,
1114,0,1268,2,
1120,0,1269,2,
1113,0,1270,2,
1119,0,1271,2,
1121,0,1272,2,
1117,0,1273,2,
1097,0,1274,2,
1106,0,1275,2,
1136,1133,1276,1,
1135,0,1277,2,
1128,0,1278,2,
1124,0,1279,2,
1125,0,1280,2,
1132,0,1281,2,
1129,1126,1282,0,
1134,0,1283,2,
1127,0,1284,2,
1146,0,1285,2,
1144,1141,1286,0,
1133,0,1287,2,
1140,0,1288,2,
1139,0,1289,2,
1147,0,1290,2,
1137,0,1291,2,
1138,0,1292,2,
1129,0,1293,2,
1145,0,1294,2,
1149,175,1295,0,
124,1150,1296,0,
1120,652,1297,0,
1142,1124,1298,1,
1134,173,1299,1,
1132,156,1300,0,
1148,0,1301,2,
1152,0,1302,2,
1151,991,1303,0,
1150,124,1304,1,
1157,0,1305,2,
996,1156,1306,0,
1154,0,1307,2,
1155,0,1308,2,
1160,1004,1309,0,
1162,0,1310,2,
1166,91,1311,0,
1165,257,1312,1,
1148,177,1313,0,
1165,0,1314,2,
1168,0,1315,2,
1169,0,1316,2,
1171,0,1317,2,
1015,1170,1318,0,
1172,529,1319,1,
1174,0,1320,2,
1175,0,1321,2,
1177,1022,1322,0,
1176,1021,1323,1,
1180,113,1324,1,
1027,1181,1325,0,
1185,108,1326,1,
1030,1186,1327,0,
1176,1184,1328,0,
1183,1029,1329,0,
1187,0,1330,2,
1188,0,1331,2,
22,1180,1332,0,
1193,0,1333,2,
1192,1036,1334,1,
1185,0,1335,2,
1195,720,1336,1,
1202,0,1337,2,
1199,0,1338,2,
1202,1199,1339,1,
1200,0,1340,2,
1197,888,1341,1,
1179,0,1342,2,
1192,0,1343,2,
1203,0,1344,2,
1195,893,1345,0,
1198,0,1346,2,
1205,0,1347,2,
1050,1204,1348,0,
1209,164,1349,0,
1197,1054,1350,0,
1053,1208,1351,0,
1211,291,1352,1,
1217,738,1353,1,
1212,1213,1354,0,
902,1215,1355,1,
1215,0,1356,2,
1216,0,1357,2,
1211,0,1358,2,
1217,0,1359,2,
568,1216,1360,1,
1218,0,1361,2,
1221,0,1362,2,
1224,1070,1363,0,
1226,0,1364,2,
1227,116,1365,1,
1228,0,1366,2,
1230,0,1367,2,
1232,119,1368,1,
1231,0,1369,2,
1229,0,1370,2,
1234,157,1371,1,
1,1235,1372,0,
1228,150,1373,1,
1237,159,1374,0,
1236,0,1375,2,
1238,605,1376,1,
1232,151,1377,0,
1234,0,1378,2,
1241,0,1379,2,
1242,1091,1380,0,
1240,0,1381,2,
1243,0,1382,2,
1248,943,1383,0,
1247,0,1384,2,
1244,0,1385,2,
1239,0,1386,2,
1252,0,1387,2,
1251,1103,1388,0,
1253,150,1389,1,
1250,1101,1390,0,
1255,0,1391,2,
1261,0,1392,2,
1256,0,1393,2,
1257,0,1394,2,
1258,0,1395,2,
1238,808,1396,0,
1260,0,1397,2,
1259,0,1398,2,
1245,0,1399,2,
1253,0,1400,2,
1262,0,1401,2,
1249,0,1402,2,
1105,1263,1403,0,
1266,1267,1404,1,
1130,1271,1405,0,
1131,1272,1406,0,
1267,0,1407,2,
1273,983,1408,0,
828,1269,1409,0,
5,1274,1410,0,
1281,117,1411,1,
510,1278,1412,0,
1276,0,1413,2,
173,1283,1414,0,
0,1275,1415,0,
831,1280,1416,0,
1142,1279,1417,0,
664,1284,1418,0,
1282,0,1419,2,
1288,1289,1420,0,
1153,1294,1421,0,
1292,1291,1422,0,
1272,1131,1423,0,
1136,1287,1424,0,
1286,0,1425,2,
974,1293,1426,0,
1300,0,1427,2,
1298,0,1428,2,
1299,1303,1429,1,
1297,0,1430,2,
1295,0,1431,2,
1301,105,1432,1,
1296,0,1433,2,
1303,0,1434,2,
1000,1308,1435,0,
1299,0,1436,2,
1304,1306,1437,1,
1306,0,1438,2,
1309,0,1439,2,
1313,0,1440,2,
1312,1311,1441,1,
1312,0,1442,2,
117,1314,1443,0,
1311,0,1444,2,
1318,1319,1445,1,
1318,0,1446,2,
388,1317,1447,1,
1317,140,1448,0,
1323,1322,1449,1,
1324,539,1450,1,
1322,0,1451,2,
1323,0,1452,2,
1325,0,1453,2,
1329,0,1454,2,
1328,0,1455,2,
1326,120,1456,1,
1327,0,1457,2,
1326,0,1458,2,
1330,1190,1459,0,
1324,711,1460,0,
1191,1331,1461,0,
1332,0,1462,2,
1333,1196,1463,0,
1334,280,1464,1,
19,1335,1465,0,
1336,0,1466,2,
1343,1207,1467,0,
1334,407,1468,0,
1341,0,1469,2,
1337,1338,1470,0,
1344,1347,1471,0,
1345,0,1472,2,
895,1348,1473,1,
1351,0,1474,2,
1350,0,1475,2,
1348,0,1476,2,
1349,0,1477,2,
897,1351,1478,1,
1352,1353,1479,1,
1355,0,1480,2,
568,1357,1481,0,
902,1356,1482,0,
1358,419,1483,0,
1352,1353,1484,0,
1359,905,1485,0,
1360,0,1486,2,
1354,0,1487,2,
1067,1362,1488,0,
1363,0,1489,2,
1365,0,1490,2,
150,1366,1491,0,
1368,0,1492,2,
1233,1370,1493,0,
1372,0,1494,2,
1373,930,1495,1,
1377,0,1496,2,
1374,0,1497,2,
1365,124,1498,1,
1376,0,1499,2,
1380,0,1500,2,
1368,167,1501,1,
36,1378,1502,0,
1381,1246,1503,0,
1371,0,1504,2,
1373,0,1505,2,
1254,1385,1506,0,
1390,0,1507,2,
1383,0,1508,2,
1389,962,1509,1,
1389,0,1510,2,
150,1400,1511,0,
1388,0,1512,2,
1118,1391,1513,0,
1398,1397,1514,0,
1394,1393,1515,1,
1396,0,1516,2,
1395,1265,1517,0,
509,1405,1518,1,
1403,0,1519,2,
1404,0,1520,2,
1408,0,1521,2,
1266,1407,1522,0,
1410,0,1523,2,
1406,0,1524,2,
1393,1394,1525,0,
1405,0,1526,2,
1409,0,1527,2,
1415,0,1528,2,
1418,1290,1529,0,
1414,0,1530,2,
1416,1154,1531,0,
1417,0,1532,2,
1412,0,1533,2,
1426,0,1534,2,
1416,0,1535,2,
1420,0,1536,2,
1418,0,1537,2,
1422,0,1538,2,
1421,0,1539,2,
1408,1411,1540,1,
1276,1423,1541,1,
1424,0,1542,2,
1158,1430,1543,0,
1432,124,1544,1,
1431,1433,1545,0,
1429,999,1546,1,
1429,1163,1547,0,
1436,1434,1548,0,
1437,844,1549,1,
1437,0,1550,2,
1304,1438,1551,0,
1421,1157,1552,0,
1420,994,1553,0,
1422,1298,1554,0,
124,1432,1555,0,
1441,848,1556,1,
1443,142,1557,0,
1442,1444,1558,0,
1441,1011,1559,0,
1445,0,1560,2,
1445,1016,1561,1,
1447,1017,1562,1,
1446,1319,1563,0,
1447,0,1564,2,
1448,0,1565,2,
1450,0,1566,2,
1452,1451,1567,0,
1453,708,1568,1,
1456,114,1569,1,
1454,1455,1570,0,
1456,0,1571,2,
1457,1189,1572,0,
1040,1459,1573,1,
1460,0,1574,2,
17,1458,1575,0,
1453,877,1576,0,
1461,0,1577,2,
1459,0,1578,2,
1463,1200,1579,1,
1463,0,1580,2,
1465,0,1581,2,
1464,0,1582,2,
1470,0,1583,2,
1468,0,1584,2,
1467,0,1585,2,
1471,0,1586,2,
1473,1471,1587,1,
1477,1475,1588,0,
1058,1474,1589,0,
1057,1476,1590,0,
1479,1354,1591,1,
1482,0,1592,2,
1481,0,1593,2,
1483,0,1594,2,
1485,0,1595,2,
1457,1189,1596,1,
1484,0,1597,2,
1479,1487,1598,0,
1068,1488,1599,1,
1488,0,1600,2,
0,1490,1601,0,
1491,0,1602,2,
35,1492,1603,0,
1371,1493,1604,1,
1495,937,1605,1,
1375,1494,1606,0,
1379,1497,1607,0,
1493,0,1608,2,
1096,1499,1609,1,
1498,1245,1610,1,
1505,1107,1611,0,
1495,1099,1612,0,
1502,0,1613,2,
1384,1500,1614,0,
1501,1503,1615,1,
1096,1499,1616,0,
1503,0,1617,2,
1501,0,1618,2,
1506,0,1619,2,
1498,0,1620,2,
1506,1114,1621,1,
1510,1123,1622,0,
1392,1507,1623,0,
1507,1392,1624,1,
1513,1135,1625,1,
986,1518,1626,1,
1515,0,1627,2,
1511,0,1628,2,
1513,0,1629,2,
1517,0,1630,2,
986,1518,1631,0,
668,1526,1632,0,
1514,0,1633,2,
1525,0,1634,2,
1522,0,1635,2,
1411,1521,1636,0,
1413,1524,1637,0,
1527,1419,1638,0,
1285,1523,1639,0,
1529,0,1640,2,
1302,1530,1641,0,
1531,0,1642,2,
1517,1404,1643,1,
997,1533,1644,0,
1425,1532,1645,0,
1428,1538,1646,0,
1159,1536,1647,0,
1540,0,1648,2,
1540,1002,1649,1,
1147,1537,1650,0,
1307,1535,1651,0,
1541,0,1652,2,
1539,1305,1653,0,
1544,1309,1654,1,
1546,0,1655,2,
1546,1162,1656,1,
1545,0,1657,2,
1543,1534,1658,0,
1549,0,1659,2,
1550,1009,1660,0,
1547,0,1661,2,
1548,0,1662,2,
1551,0,1663,2,
1544,1439,1664,0,
1555,0,1665,2,
1554,0,1666,2,
1556,0,1667,2,
1559,0,1668,2,
1558,0,1669,2,
267,1561,1670,1,
1557,0,1671,2,
1560,1173,1672,0,
393,1561,1673,0,
1562,691,1674,1,
1563,0,1675,2,
1564,1178,1676,0,
1562,861,1677,0,
388,1565,1678,0,
1462,1574,1679,0,
1182,1566,1680,1,
1567,0,1681,2,
1568,0,1682,2,
1572,0,1683,2,
1570,0,1684,2,
1182,1566,1685,0,
1569,123,1686,1,
10,1571,1687,0,
1576,0,1688,2,
1575,0,1689,2,
1573,274,1690,1,
1573,398,1691,0,
1577,1198,1692,1,
1569,0,1693,2,
1201,1578,1694,0,
1581,1206,1695,0,
1466,1582,1696,0,
1580,1340,1697,0,
1577,1346,1698,0,
1336,1582,1699,1,
1584,1585,1700,0,
1587,0,1701,2,
1473,1586,1702,0,
1590,0,1703,2,
1588,0,1704,2,
1589,0,1705,2,
907,1593,1706,0,
1219,1592,1707,0,
1594,1361,1708,0,
1595,1597,1709,0,
1591,0,1710,2,
1598,0,1711,2,
1222,1600,1712,0,
1601,0,1713,2,
1367,1602,1714,0,
1604,939,1715,1,
1603,0,1716,2,
1606,0,1717,2,
1605,0,1718,2,
1604,1111,1719,0,
1504,1608,1720,0,
1249,1607,1721,1,
1610,795,1722,1,
1609,1383,1723,1,
1387,1613,1724,0,
1615,961,1725,1,
1614,0,1726,2,
1611,0,1727,2,
1612,0,1728,2,
1619,1268,1729,0,
1509,1621,1730,0,
1620,1399,1731,0,
1610,970,1732,0,
1618,1617,1733,0,
1615,1122,1734,0,
1607,0,1735,2,
1609,1508,1736,0,
1616,0,1737,2,
1622,0,1738,2,
1624,1514,1739,1,
1623,0,1740,2,
1520,1630,1741,0,
1143,1625,1742,0,
1629,1277,1743,0,
1626,1627,1744,1,
254,1649,1745,1,
1639,839,1746,1,
1509,1621,1747,1,
1626,1515,1748,0,
1632,0,1749,2,
1638,0,1750,2,
1631,0,1751,2,
1634,1528,1752,0,
1636,0,1753,2,
1639,0,1754,2,
1637,0,1755,2,
1624,1633,1756,0,
1640,1642,1757,0,
1641,0,1758,2,
1643,0,1759,2,
1143,1625,1760,1,
1645,0,1761,2,
1644,0,1762,2,
1647,0,1763,2,
1648,1161,1764,0,
1649,379,1765,0,
1651,0,1766,2,
1646,0,1767,2,
1653,0,1768,2,
1657,1008,1769,1,
1654,679,1770,1,
1655,1310,1771,0,
1662,1661,1772,0,
1654,0,1773,2,
1660,0,1774,2,
1657,1167,1775,0,
1665,1440,1776,0,
1664,0,1777,2,
1316,1671,1778,0,
1669,1668,1779,0,
1670,0,1780,2,
1673,0,1781,2,
1672,0,1782,2,
1320,1675,1783,0,
1674,1175,1784,1,
1674,0,1785,2,
1676,0,1786,2,
1677,0,1787,2,
1449,1678,1788,1,
1680,265,1789,1,
1678,1449,1790,0,
1680,391,1791,0,
1679,1179,1792,1,
1194,1683,1793,0,
1687,0,1794,2,
1686,884,1795,1,
1685,0,1796,2,
1679,0,1797,2,
1690,0,1798,2,
1692,0,1799,2,
1693,155,1800,0,
1694,0,1801,2,
1691,0,1802,2,
1686,1052,1803,0,
1697,0,1804,2,
1696,0,1805,2,
1692,1469,1806,1,
1698,0,1807,2,
1699,0,1808,2,
1695,0,1809,2,
1700,0,1810,2,
1702,0,1811,2,
1214,1705,1812,0,
1360,1707,1813,1,
1707,0,1814,2,
1706,0,1815,2,
1596,1708,1816,1,
1220,1706,1817,1,
1709,0,1818,2,
1708,0,1819,2,
1712,0,1820,2,
1369,1713,1821,0,
1714,0,1822,2,
1496,1716,1823,0,
1715,0,1824,2,
1717,1102,1825,1,
1720,0,1826,2,
1719,0,1827,2,
1723,0,1828,2,
1721,1113,1829,1,
1724,1262,1830,1,
1722,0,1831,2,
1725,0,1832,2,
1724,0,1833,2,
1717,1264,1834,0,
1727,1728,1835,0,
1734,0,1836,2,
1731,0,1837,2,
1732,0,1838,2,
1729,0,1839,2,
1730,0,1840,2,
1736,0,1841,2,
1516,1737,1842,0,
1733,0,1843,2,
1402,1735,1844,0,
1721,1270,1845,0,
1628,1738,1846,0,
1739,0,1847,2,
1519,1740,1848,0,
1744,0,1849,2,
1723,1614,1850,1,
1741,0,1851,2,
1745,1746,1852,1,
1743,0,1853,2,
1742,0,1854,2,
1745,0,1855,2,
1542,1755,1856,0,
1748,0,1857,2,
1750,1534,1858,0,
1747,1752,1859,1,
1756,0,1860,2,
1749,1751,1861,0,
1754,1003,1862,0,
1753,1427,1863,0,
1760,1761,1864,0,
1650,1757,1865,0,
1758,1005,1866,1,
1435,1762,1867,0,
1760,0,1868,2,
1752,0,1869,2,
1765,0,1870,2,
1763,1768,1871,0,
1757,1658,1872,0,
1766,1767,1873,0,
1768,1767,1874,0,
1764,0,1875,2,
1769,0,1876,2,
1771,0,1877,2,
1770,0,1878,2,
1552,1767,1879,0,
1758,1164,1880,0,
1663,1774,1881,0,
1773,847,1882,0,
1775,0,1883,2,
1772,0,1884,2,
1776,1168,1885,1,
1776,0,1886,2,
1778,685,1887,1,
1779,0,1888,2,
1778,0,1889,2,
1781,1782,1890,0,
1784,1783,1891,1,
1783,0,1892,2,
1785,1321,1893,0,
1786,1787,1894,0,
1790,0,1895,2,
1789,0,1896,2,
1791,0,1897,2,
1793,0,1898,2,
1689,1794,1899,0,
1795,0,1900,2,
1690,1792,1901,1,
1797,1342,1902,0,
1798,1792,1903,0,
1800,0,1904,2,
1803,0,1905,2,
1802,1801,1906,0,
1799,1469,1907,0,
1472,1805,1908,0,
1795,1579,1909,1,
1806,0,1910,2,
1806,1700,1911,1,
1703,1811,1912,0,
1812,0,1913,2,
1812,1355,1914,0,
1486,1814,1915,0,
1220,1815,1916,0,
1816,0,1917,2,
1596,1819,1918,0,
1793,1339,1919,1,
1817,0,1920,2,
1821,0,1921,2,
1822,1243,1922,1,
1822,1382,1923,0,
1823,0,1924,2,
1825,0,1925,2,
1725,1830,1926,1,
1826,1827,1927,0,
1829,0,1928,2,
1828,1726,1929,0,
1834,0,1930,2,
1833,1401,1931,0,
1832,1830,1932,0,
1835,0,1933,2,
1842,0,1934,2,
1839,1840,1935,0,
1837,1838,1936,0,
1845,0,1937,2,
1843,1836,1938,0,
1825,1831,1939,1,
1844,0,1940,2,
1846,0,1941,2,
1848,0,1942,2,
1852,0,1943,2,
1850,0,1944,2,
1635,1851,1945,0,
1853,1854,1946,0,
1855,1746,1947,0,
1848,1744,1948,1,
1856,1759,1949,0,
1858,1757,1950,0,
1863,0,1951,2,
1862,0,1952,2,
1861,0,1953,2,
1859,0,1954,2,
1866,0,1955,2,
1867,0,1956,2,
1645,1868,1957,0,
1859,1861,1958,1,
1864,0,1959,2,
1747,1869,1960,0,
1865,0,1961,2,
1874,1553,1962,0,
1866,1659,1963,1,
1870,1875,1964,0,
1769,1878,1965,1,
1876,1770,1966,0,
1880,0,1967,2,
1656,1863,1968,1,
1856,0,1969,2,
1879,0,1970,2,
1882,0,1971,2,
1556,1885,1972,1,
1881,0,1973,2,
1667,1885,1974,0,
1886,1315,1975,0,
1670,1887,1976,1,
1780,1887,1977,0,
1889,855,1978,0,
1891,0,1979,2,
1784,1892,1980,0,
1890,0,1981,2,
1893,0,1982,2,
1788,1894,1983,1,
1681,1895,1984,0,
1568,1896,1985,1,
1682,1896,1986,0,
1897,1796,1987,0,
1901,0,1988,2,
1898,1339,1989,0,
1899,0,1990,2,
1900,1579,1991,0,
1903,0,1992,2,
1902,0,1993,2,
1904,1905,1994,0,
1907,0,1995,2,
1699,1906,1996,1,
1906,0,1997,2,
1908,0,1998,2,
1910,1810,1999,0,
1909,0,2000,2,
1909,1588,2001,1,
1912,0,2002,2,
1911,1908,2003,1,
1894,0,2004,2,
1478,1912,2005,1,
1480,1913,2006,0,
1914,0,2007,2,
1915,0,2008,2,
1916,0,2009,2,
1818,1917,2010,0,
1918,0,2011,2,
1818,1917,2012,1,
1919,0,2013,2,
1913,1480,2014,1,
1921,1239,2015,1,
1922,0,2016,2,
1921,1386,2017,0,
1924,1388,2018,1,
1923,0,2019,2,
1925,1831,2020,0,
1922,1824,2021,1,
1926,0,2022,2,
1927,0,2023,2,
1929,0,2024,2,
1926,1927,2025,1,
1924,1512,2026,0,
1931,0,2027,2,
1932,0,2028,2,
1939,0,2029,2,
1936,0,2030,2,
1939,1846,2031,1,
1940,1937,2032,0,
1935,0,2033,2,
1934,1847,2034,1,
1847,1934,2035,0,
1849,1942,2036,0,
1938,0,2037,2,
1946,0,2038,2,
1945,1944,2039,0,
1946,1652,2040,0,
1947,0,2041,2,
1948,0,2042,2,
1656,1951,2043,0,
1953,1954,2044,0,
1949,0,2045,2,
1950,0,2046,2,
1873,1961,2047,0,
1960,0,2048,2,
1957,0,2049,2,
1958,0,2050,2,
1872,1956,2051,0,
1955,1549,2052,0,
1945,0,2053,2,
1963,1772,2054,1,
1962,0,2055,2,
1970,1666,2056,0,
1643,1969,2057,0,
1966,0,2058,2,
1964,0,2059,2,
1968,0,2060,2,
1965,1881,2061,1,
1777,1971,2062,0,
1963,1884,2063,0,
1972,0,2064,2,
1965,1973,2065,0,
1975,0,2066,2,
1974,0,2067,2,
1976,1779,2068,1,
1976,0,2069,2,
1977,0,2070,2,
1978,0,2071,2,
1980,0,2072,2,
1901,1987,2073,1,
1984,0,2074,2,
1985,1570,2075,1,
1985,0,2076,2,
1986,0,2077,2,
1987,0,2078,2,
1991,0,2079,2,
1990,1695,2080,1,
1989,0,2081,2,
1993,1992,2082,0,
1807,1995,2083,0,
1994,0,2084,2,
1911,1998,2085,0,
1990,1809,2086,0,
1808,1997,2087,0,
2000,1704,2088,0,
1999,0,2089,2,
1983,0,2090,2,
2005,0,2091,2,
1478,2002,2092,0,
2003,0,2093,2,
1788,2004,2094,0,
2006,0,2095,2,
1813,2007,2096,0,
2008,2009,2097,0,
1817,2009,2098,0,
2010,0,2099,2,
2015,0,2100,2,
2016,1824,2101,0,
2017,0,2102,2,
2018,0,2103,2,
2020,0,2104,2,
2021,0,2105,2,
2021,1835,2106,1,
1841,2024,2107,0,
2015,1718,2108,1,
2026,0,2109,2,
2018,1928,2110,1,
2022,2023,2111,0,
2027,2028,2112,0,
2029,1941,2113,0,
2031,2033,2114,0,
1852,2032,2115,1,
2032,0,2116,2,
2034,0,2117,2,
2036,0,2118,2,
2035,0,2119,2,
1541,2038,2120,0,
1952,2041,2121,0,
2040,0,2122,2,
2044,0,2123,2,
1871,2046,2124,0,
2043,0,2125,2,
2052,0,2126,2,
2051,0,2127,2,
2031,1935,2128,1,
2054,0,2129,2,
1850,2053,2130,0,
2057,0,2131,2,
2061,0,2132,2,
1883,2058,2133,0,
1972,2062,2134,1,
2062,0,2135,2,
2063,0,2136,2,
2065,0,2137,2,
2066,2067,2138,0,
2069,1888,2139,0,
2071,2070,2140,0,
2072,1982,2141,0,
1688,2077,2142,0,
2076,1684,2143,0,
2075,2074,2144,0,
1988,2078,2145,0,
1583,2081,2146,0,
2080,1210,2147,1,
1804,2079,2148,0,
2082,0,2149,2,
1996,2082,2150,1,
2080,0,2151,2,
2083,0,2152,2,
2085,0,2153,2,
2086,0,2154,2,
2087,0,2155,2,
2088,0,2156,2,
2083,2001,2157,1,
2094,0,2158,2,
2092,0,2159,2,
2075,1984,2160,1,
2098,0,2161,2,
2011,2099,2162,0,
2100,1718,2163,0,
2101,0,2164,2,
2103,1928,2165,0,
2105,1933,2166,0,
1930,2104,2167,0,
2108,0,2168,2,
2108,1936,2169,1,
2110,1938,2170,1,
2111,0,2171,2,
2107,0,2172,2,
2113,0,2173,2,
1943,2116,2174,0,
2112,0,2175,2,
2114,0,2176,2,
2110,0,2177,2,
2107,2117,2178,0,
1860,2119,2179,0,
1857,2118,2180,0,
2120,0,2181,2,
2121,0,2182,2,
2122,2045,2183,0,
2048,2123,2184,0,
1877,2125,2185,0,
2124,2047,2186,0,
2128,0,2187,2,
1967,2126,2188,0,
2130,0,2189,2,
2133,0,2190,2,
2064,2135,2191,0,
2134,2133,2192,1,
2138,0,2193,2,
2138,2068,2194,1,
2139,0,2195,2,
2140,0,2196,2,
1983,2141,2197,1,
2144,0,2198,2,
2143,0,2199,2,
2142,2073,2200,1,
2142,0,2201,2,
2145,0,2202,2,
2147,1994,2203,1,
2146,0,2204,2,
2148,0,2205,2,
2147,0,2206,2,
2150,0,2207,2,
2151,1210,2208,0,
1996,2149,2209,0,
2001,2152,2210,0,
2141,0,2211,2,
2153,2089,2212,0,
2157,0,2213,2,
2159,2095,2214,0,
2160,0,2215,2,
2161,1599,2216,0,
2162,0,2217,2,
1919,2162,2218,1,
2163,0,2219,2,
2019,2164,2220,0,
2165,0,2221,2,
2167,0,2222,2,
2166,0,2223,2,
2170,2112,2224,1,
2168,2030,2225,0,
2034,2172,2226,0,
2177,2037,2227,0,
2169,2167,2228,1,
2173,2176,2229,0,
2174,0,2230,2,
2170,2175,2231,0,
2180,0,2232,2,
2179,0,2233,2,
2179,2042,2234,0,
2178,0,2235,2,
1959,2181,2236,0,
2180,2050,2237,0,
2183,2049,2238,0,
2182,1964,2239,1,
2184,0,2240,2,
2185,0,2241,2,
2128,2184,2242,1,
2186,2127,2243,0,
2188,0,2244,2,
2182,2059,2245,0,
2054,2185,2246,1,
2134,2190,2247,0,
2191,0,2248,2,
2061,2188,2249,1,
2192,0,2250,2,
2193,2068,2251,0,
2194,0,2252,2,
2196,1890,2253,1,
2196,1981,2254,0,
2199,2198,2255,0,
2201,2073,2256,0,
2200,0,2257,2,
2204,1701,2258,1,
2203,2205,2259,0,
2206,2084,2260,0,
2208,0,2261,2,
2209,0,2262,2,
2210,0,2263,2,
2212,0,2264,2,
2090,2211,2265,0,
2203,2148,2266,1,
2157,2212,2267,1,
2013,2217,2268,0,
1701,2204,2269,0,
2102,2219,2270,0,
2220,0,2271,2,
2109,2221,2272,0,
2025,2220,2273,1,
2169,2222,2274,0,
2225,0,2275,2,
2226,0,2276,2,
2224,0,2277,2,
2227,0,2278,2,
2231,0,2279,2,
2228,0,2280,2,
2229,0,2281,2,
1958,2232,2282,0,
1948,2233,2283,0,
2234,0,2284,2,
2239,1968,2285,1,
2236,0,2286,2,
2239,0,2287,2,
2237,0,2288,2,
2238,2055,2289,0,
2243,0,2290,2,
2129,2241,2291,0,
2187,2240,2292,0,
2245,0,2293,2,
2132,2244,2294,0,
2247,0,2295,2,
2251,0,2296,2,
2253,1891,2297,1,
2253,0,2298,2,
2254,0,2299,2,
2255,0,2300,2,
2200,2255,2301,1,
2256,0,2302,2,
2260,0,2303,2,
2258,0,2304,2,
2259,0,2305,2,
2154,2261,2306,0,
2155,2262,2307,0,
2156,2263,2308,0,
2265,0,2309,2,
2213,2264,2310,0,
2266,0,2311,2,
2269,0,2312,2,
2268,0,2313,2,
2249,0,2314,2,
2270,0,2315,2,
2025,2271,2316,0,
2272,0,2317,2,
2274,0,2318,2,
2273,0,2319,2,
2106,2270,2320,1,
2039,2276,2321,0,
2278,2279,2322,0,
2281,2280,2323,0,
2272,2115,2324,1,
2283,0,2325,2,
2282,0,2326,2,
2183,2286,2327,0,
2289,2056,2328,0,
2281,2280,2329,1,
2287,2060,2330,0,
2242,2288,2331,0,
2292,0,2332,2,
2276,2189,2333,0,
2291,0,2334,2,
2294,0,2335,2,
2248,2295,2336,0,
2195,2296,2337,0,
2298,1979,2338,0,
2257,2300,2339,0,
2202,2302,2340,0,
2301,0,2341,2,
2304,1587,2342,0,
2303,2305,2343,0,
2307,0,2344,2,
1591,2306,2345,1,
2003,2307,2346,1,
2308,0,2347,2,
2158,2309,2348,0,
2310,0,2349,2,
2306,0,2350,2,
2313,2312,2351,0,
2106,2315,2352,0,
2316,0,2353,2,
2115,2317,2354,0,
2275,2318,2355,0,
2321,0,2356,2,
2320,0,2357,2,
2324,0,2358,2,
2322,0,2359,2,
2323,0,2360,2,
2325,2326,2361,0,
2324,2322,2362,1,
2327,0,2363,2,
2328,2290,2364,0,
2292,2329,2365,0,
2331,2329,2366,0,
2330,0,2367,2,
2136,2334,2368,0,
2137,2335,2369,0,
2336,0,2370,2,
2337,0,2371,2,
2336,2194,2372,0,
2194,2336,2373,1,
2338,0,2374,2,
2339,0,2375,2,
2340,0,2376,2,
2343,0,2377,2,
2342,0,2378,2,
2093,2344,2379,0,
2345,2343,2380,1,
2267,2346,2381,0,
2347,2311,2382,1,
2348,0,2383,2,
2311,2347,2384,0,
1710,2350,2385,0,
2351,2159,2386,0,
2352,0,2387,2,
2171,2353,2388,0,
2355,2320,2389,0,
2354,0,2390,2,
2355,0,2391,2,
2356,2235,2392,0,
2358,2359,2393,0,
2131,2363,2394,0,
2293,2367,2395,0,
2364,0,2396,2,
2361,2332,2397,0,
2365,0,2398,2,
2368,0,2399,2,
2369,0,2400,2,
2314,2368,2401,0,
2252,2370,2402,0,
2371,2297,2403,1,
2372,0,2404,2,
2368,2249,2405,1,
2297,2371,2406,0,
2299,2374,2407,0,
2341,2375,2408,0,
2376,2207,2409,1,
2207,2376,2410,0,
2091,2378,2411,0,
2345,2377,2412,0,
2380,0,2413,2,
2379,2267,2414,0,
2383,2215,2415,0,
2385,0,2416,2,
2379,0,2417,2,
2383,2215,2418,1,
2384,0,2419,2,
2386,2095,2420,0,
2223,2387,2421,0,
2388,0,2422,2,
2230,2390,2423,0,
2389,0,2424,2,
2391,2357,2425,0,
2392,2284,2426,0,
2393,0,2427,2,
2394,2333,2428,0,
2246,2395,2429,1,
2395,0,2430,2,
2399,2249,2431,0,
2401,0,2432,2,
2400,2250,2433,1,
2250,2400,2434,0,
2402,0,2435,2,
2403,2404,2436,0,
2405,0,2437,2,
2406,0,2438,2,
2197,2407,2439,1,
2408,0,2440,2,
2410,0,2441,2,
2412,0,2442,2,
2411,0,2443,2,
2382,2413,2444,0,
2414,0,2445,2,
2407,0,2446,2,
2415,0,2447,2,
2384,2413,2448,0,
1711,2416,2449,0,
2391,2357,2450,1,
2420,2008,2451,0,
2421,0,2452,2,
2422,2277,2453,1,
2273,2421,2454,1,
2422,2277,2455,0,
2423,0,2456,2,
2425,0,2457,2,
2426,0,2458,2,
2428,2396,2459,0,
2246,2430,2460,0,
2429,0,2461,2,
2431,0,2462,2,
2433,2432,2463,0,
2434,0,2464,2,
2409,2440,2465,0,
2214,2443,2466,0,
2349,2442,2467,0,
2439,0,2468,2,
2444,0,2469,2,
2197,2446,2470,0,
2447,2375,2471,0,
2448,0,2472,2,
2449,0,2473,2,
2012,2449,2474,1,
2451,2009,2475,0,
2450,0,2476,2,
2159,2443,2477,0,
2319,2452,2478,0,
2454,2453,2479,0,
2455,0,2480,2,
2456,2285,2481,0,
2360,2457,2482,0,
2361,2458,2483,0,
2456,2285,2484,1,
2460,0,2485,2,
2459,2397,2486,0,
2463,0,2487,2,
2464,2435,2488,0,
2465,0,2489,2,
2466,0,2490,2,
2467,2445,2491,0,
2469,2442,2492,0,
2436,2468,2493,0,
2406,2468,2494,0,
2470,0,2495,2,
2471,2441,2496,0,
2454,2424,2497,0,
2474,0,2498,2,
2012,2473,2499,0,
2459,0,2500,2,
2459,2361,2501,0,
2475,1820,2502,0,
2477,0,2503,2,
2478,2453,2504,0,
2479,2424,2505,0,
2481,0,2506,2,
2478,0,2507,2,
2483,0,2508,2,
2484,0,2509,2,
2462,2485,2510,0,
2486,0,2511,2,
2487,2464,2512,0,
2488,2487,2513,0,
2489,2441,2514,0,
2096,2490,2515,0,
2492,0,2516,2,
2494,0,2517,2,
2496,2417,2518,0,
2499,0,2519,2,
2497,0,2520,2,
2501,0,2521,2,
2426,2500,2522,0,
2502,1489,2523,0,
2014,2503,2524,0,
2504,0,2525,2,
2505,0,2526,2,
2482,2506,2527,0,
2507,2427,2528,0,
2331,2508,2529,0,
2366,2508,2530,0,
2509,2506,2531,0,
2482,2507,2532,0,
2510,2464,2533,0,
2512,0,2534,2,
2513,0,2535,2,
2514,0,2536,2,
2515,0,2537,2,
2517,2495,2538,0,
2518,2349,2539,0,
2520,2507,2540,0,
2522,0,2541,2,
2523,1364,2542,0,
2525,2480,2543,0,
2527,2480,2544,0,
2530,0,2545,2,
2529,0,2546,2,
2531,0,2547,2,
2533,0,2548,2,
2532,2480,2549,0,
2533,2435,2550,0,
2534,2373,2551,0,
2436,2535,2552,0,
2381,2536,2553,0,
2493,2535,2554,0,
2097,2537,2555,0,
2539,2419,2556,0,
2540,0,2557,2,
2346,2536,2558,0,
2529,2521,2559,0,
2361,2541,2560,0,
2008,2537,2561,0,
2542,176,2562,0,
2543,2526,2563,0,
2528,2544,2564,0,
2546,2332,2565,0,
2547,2461,2566,0,
2549,2427,2567,0,
2373,2548,2568,0,
2553,0,2569,2,
2550,2438,2570,0,
2554,0,2571,2,
2555,0,2572,2,
2556,2442,2573,0,
2557,2453,2574,0,
2558,0,2575,2,
2559,0,2576,2,
2560,0,2577,2,
2561,0,2578,2,
2552,0,2579,2,
2563,0,2580,2,
2397,2564,2581,0,
2564,2398,2582,0,
2565,0,2583,2,
2568,2534,2584,0,
2491,2569,2585,0,
2538,2571,2586,0,
2570,2495,2587,0,
2216,2572,2588,0,
2349,2569,2589,0,
2573,2519,2590,0,
2575,2417,2591,0,
2576,2332,2592,0,
2577,2288,2593,0,
1920,2578,2594,0,
2570,0,2595,2,
2579,2438,2596,0,
2362,2580,2597,0,
2582,2545,2598,0,
2581,2459,2599,0,
2583,2329,2600,0,
2584,0,2601,2,
2585,0,2602,2,
2586,0,2603,2,
2588,0,2604,2,
2589,2445,2605,0,
2591,0,2606,2,
2329,2592,2607,1,
2242,2593,2608,1,
2596,0,2609,2,
2468,2595,2610,0,
2597,0,2611,2,
2598,0,2612,2,
2599,0,2613,2,
2600,2511,2614,0,
2601,2435,2615,0,
2602,2516,2616,0,
2603,2418,2617,0,
2604,1820,2618,0,
2605,0,2619,2,
2267,2606,2620,0,
2607,0,2621,2,
83,2608,2622,0,
84,2608,2623,0,
75,2608,2624,0,
74,2608,2625,0,
2610,2609,2626,0,
2468,2609,2627,0,
2611,2427,2628,0,
2566,2613,2629,0,
2614,0,2630,2,
2616,0,2631,2,
2618,0,2632,2,
2382,2619,2633,0,
84,2621,2634,0,
2622,0,2635,2,
83,2621,2636,0,
75,2621,2637,0,
2623,0,2638,2,
74,2621,2639,0,
2624,0,2640,2,
745,2625,2641,0,
125,2625,2642,0,
752,2625,2643,0,
2626,0,2644,2,
2628,2506,2645,0,
2549,2630,2646,0,
2628,0,2647,2,
2567,2630,2648,0,
2631,2472,2649,0,
2629,0,2650,2,
2532,2630,2651,0,
2630,2360,2652,0,
1223,2632,2653,0,
2482,2630,2654,0,
2633,0,2655,2,
2634,0,2656,2,
2637,0,2657,2,
2636,0,2658,2,
2639,0,2659,2,
2641,0,2660,2,
2642,0,2661,2,
2643,0,2662,2,
2644,2495,2663,0,
2645,0,2664,2,
2646,0,2665,2,
2648,0,2666,2,
2647,2484,2667,0,
2649,0,2668,2,
2587,2650,2669,0,
2652,0,2670,2,
2654,0,2671,2,
2653,0,2672,2,
2651,0,2673,2,
2655,2419,2674,0,
2638,2657,2675,0,
2659,2640,2676,0,
2660,578,2677,0,
2612,2664,2678,0,
2597,2665,2679,0,
2667,2666,2680,0,
2668,2498,2681,0,
2669,2590,2682,0,
2669,0,2683,2,
2670,2450,2684,0,
2574,2673,2685,0,
2672,1489,2686,0,
2497,2671,2687,0,
2674,0,2688,2,
2670,2476,2689,1,
2676,0,2690,2,
2677,0,2691,2,
2629,2678,2692,0,
2679,0,2693,2,
2680,0,2694,2,
2678,0,2695,2,
2681,0,2696,2,
2682,0,2697,2,
2684,0,2698,2,
2687,0,2699,2,
2686,0,2700,2,
2685,0,2701,2,
2689,0,2702,2,
2413,2688,2703,0,
131,2690,2704,0,
745,2690,2705,0,
125,2690,2706,0,
93,2691,2707,0,
125,2691,2708,0,
93,2690,2709,0,
752,2690,2710,0,
2692,0,2711,2,
2692,2551,2712,0,
2693,2427,2713,0,
2694,2506,2714,0,
2587,2695,2715,0,
2696,2519,2716,0,
2698,2457,2717,0,
2701,2480,2718,0,
2699,2507,2719,0,
2700,1225,2720,0,
75,2702,2721,0,
84,2702,2722,0,
83,2702,2723,0,
74,2702,2724,0,
2705,0,2725,2,
2704,0,2726,2,
2706,0,2727,2,
2709,0,2728,2,
2710,0,2729,2,
2627,2692,2730,0,
2711,2485,2731,0,
2510,2711,2732,0,
2550,2711,2733,0,
2712,0,2734,2,
2484,2713,2735,1,
2429,2714,2736,1,
2715,0,2737,2,
2716,0,2738,2,
2720,0,2739,2,
2453,2719,2740,1,
2454,2717,2741,1,
2362,2718,2742,1,
2721,0,2743,2,
2722,0,2744,2,
2723,0,2745,2,
2724,0,2746,2,
2725,580,2747,0,
2730,0,2748,2,
2732,0,2749,2,
2731,0,2750,2,
2733,0,2751,2,
2615,2734,2752,0,
2735,0,2753,2,
84,2736,2754,0,
2617,2737,2755,0,
2738,2218,2756,0,
2741,0,2757,2,
2742,0,2758,2,
1364,2739,2759,0,
2740,0,2760,2,
74,2736,2761,0,
2635,2743,2762,0,
83,2736,2763,0,
75,2736,2764,0,
2675,2746,2765,0,
2747,0,2766,2,
2663,2748,2767,0,
2463,2749,2768,0,
2750,2437,2769,0,
2552,2751,2770,0,
2403,2752,2771,1,
2750,2437,2772,1,
83,2753,2773,0,
2754,0,2774,2,
2755,0,2775,2,
2755,2683,2776,0,
83,2760,2777,0,
2759,0,2778,2,
75,2753,2779,0,
84,2758,2780,0,
74,2757,2781,0,
2761,0,2782,2,
2759,176,2783,0,
75,2757,2784,0,
74,2760,2785,0,
84,2757,2786,0,
74,2758,2787,0,
75,2760,2788,0,
83,2757,2789,0,
74,2753,2790,0,
75,2758,2791,0,
84,2760,2792,0,
84,2753,2793,0,
83,2758,2794,0,
2764,0,2795,2,
2763,0,2796,2,
2765,0,2797,2,
2418,2767,2798,1,
2769,0,2799,2,
2768,0,2800,2,
2770,0,2801,2,
2798,0,2802,2,
2771,0,2803,2,
75,2772,2804,0,
2773,0,2805,2,
2590,2775,2806,0,
2776,0,2807,2,
2781,0,2808,2,
2777,0,2809,2,
2780,0,2810,2,
2779,0,2811,2,
2778,913,2812,0,
2783,0,2813,2,
83,2772,2814,0,
84,2772,2815,0,
74,2772,2816,0,
2794,0,2817,2,
2792,0,2818,2,
2790,0,2819,2,
2789,0,2820,2,
2791,0,2821,2,
2784,0,2822,2,
2793,0,2823,2,
2787,0,2824,2,
2786,0,2825,2,
2785,0,2826,2,
2788,0,2827,2,
125,2797,2828,0,
131,2797,2829,0,
745,2797,2830,0,
93,2797,2831,0,
752,2797,2832,0,
2799,2462,2833,0,
2800,2464,2834,0,
2801,2438,2835,0,
74,2802,2836,0,
84,2803,2837,0,
2804,0,2838,2,
2806,0,2839,2,
2573,2807,2840,0,
2471,2807,2841,0,
2807,2447,2842,0,
2518,2807,2843,0,
2496,2807,2844,0,
2556,2807,2845,0,
2539,2807,2846,0,
2809,2811,2847,0,
2782,2810,2848,0,
2808,2656,2849,0,
74,2803,2850,0,
75,2802,2851,0,
2814,0,2852,2,
83,2803,2853,0,
75,2803,2854,0,
83,2802,2855,0,
2815,0,2856,2,
2816,0,2857,2,
2820,2821,2858,0,
2819,2818,2859,0,
2817,2795,2860,0,
2826,2744,2861,0,
2658,2822,2862,0,
2745,2827,2863,0,
2824,2825,2864,0,
2829,0,2865,2,
2828,0,2866,2,
2830,0,2867,2,
2831,0,2868,2,
2832,0,2869,2,
84,2802,2870,0,
2373,2834,2871,1,
2433,2833,2872,1,
2439,2835,2873,1,
2836,0,2874,2,
2837,0,2875,2,
2805,2838,2876,0,
2870,0,2877,2,
2839,2697,2878,0,
2840,0,2879,2,
2844,0,2880,2,
2841,0,2881,2,
2843,0,2882,2,
2842,0,2883,2,
2846,0,2884,2,
2845,0,2885,2,
2762,2849,2886,0,
2847,2848,2887,0,
2850,0,2888,2,
2855,0,2889,2,
2853,0,2890,2,
2851,0,2891,2,
2854,0,2892,2,
2857,2823,2893,0,
2862,2861,2894,0,
2863,2864,2895,0,
2858,2859,2896,0,
2867,580,2897,0,
2871,0,2898,2,
2872,0,2899,2,
75,2873,2900,0,
2874,2875,2901,0,
2878,2756,2902,0,
2620,2882,2903,0,
2465,2881,2904,0,
2883,2301,2905,0,
2681,2879,2906,0,
2558,2880,2907,0,
2633,2884,2908,0,
2703,2885,2909,0,
2883,2341,2910,1,
2887,0,2911,2,
2886,0,2912,2,
84,2873,2913,0,
74,2873,2914,0,
2890,2891,2915,0,
2860,2893,2916,0,
2894,0,2917,2,
2896,0,2918,2,
2895,0,2919,2,
2897,0,2920,2,
83,2873,2921,0,
74,2899,2922,0,
83,2898,2923,0,
2900,0,2924,2,
2902,0,2925,2,
2907,0,2926,2,
2904,0,2927,2,
2905,0,2928,2,
2903,0,2929,2,
2906,0,2930,2,
2908,0,2931,2,
2909,0,2932,2,
75,2898,2933,0,
84,2899,2934,0,
2910,0,2935,2,
75,2899,2936,0,
74,2898,2937,0,
83,2899,2938,0,
84,2898,2939,0,
2913,0,2940,2,
2914,0,2941,2,
93,2912,2942,0,
95,2911,2943,0,
2916,0,2944,2,
125,2919,2945,0,
93,2918,2946,0,
131,2919,2947,0,
93,2919,2948,0,
2917,2625,2949,1,
2949,77,2950,0,
2917,2950,2951,1,
125,2918,2952,0,
131,2917,2953,0,
131,2918,2954,0,
95,2918,2955,0,
93,2917,2956,0,
93,2911,2957,0,
125,2912,2958,0,
131,2911,2959,0,
745,2912,2960,0,
95,2919,2961,0,
752,2912,2962,0,
125,2911,2963,0,
2921,0,2964,2,
131,2912,2965,0,
2922,0,2966,2,
2923,0,2967,2,
2451,2925,2968,0,
2475,2925,2969,0,
2386,2925,2970,0,
2351,2925,2971,0,
2502,2925,2972,0,
2420,2925,2973,0,
2523,2925,2974,0,
2313,2925,2975,0,
2542,2925,2976,0,
2928,2375,2977,0,
2927,2441,2978,0,
2926,2417,2979,0,
2930,2519,2980,0,
2929,2349,2981,0,
2562,2925,2982,0,
2931,2419,2983,0,
2932,2442,2984,0,
2933,0,2985,2,
83,2935,2986,0,
2934,0,2987,2,
74,2935,2988,0,
84,2935,2989,0,
2936,0,2990,2,
2938,0,2991,2,
2939,0,2992,2,
2937,0,2993,2,
2943,0,2994,2,
2942,0,2995,2,
93,2944,2996,0,
2947,0,2997,2,
2952,0,2998,2,
2945,0,2999,2,
125,2944,3000,0,
2948,0,3001,2,
92,2951,3002,0,
2946,0,3003,2,
2953,0,3004,2,
2959,0,3005,2,
2954,0,3006,2,
95,2944,3007,0,
2956,0,3008,2,
2955,0,3009,2,
2958,0,3010,2,
2957,0,3011,2,
2960,0,3012,2,
131,2944,3013,0,
2961,0,3014,2,
577,2951,3015,0,
2965,0,3016,2,
2962,0,3017,2,
587,2951,3018,0,
75,2935,3019,0,
2963,0,3020,2,
2966,2774,3021,0,
2967,2924,3022,0,
2972,0,3023,2,
2968,0,3024,2,
2969,0,3025,2,
2971,0,3026,2,
2970,0,3027,2,
2974,0,3028,2,
2975,0,3029,2,
2973,0,3030,2,
2976,0,3031,2,
2218,2980,3032,1,
2346,2978,3033,1,
2382,2981,3034,1,
2267,2979,3035,1,
2409,2977,3036,1,
2982,0,3037,2,
2380,2983,3038,1,
2474,2984,3039,1,
2852,2985,3040,0,
2988,0,3041,2,
2989,0,3042,2,
2986,0,3043,2,
2888,2987,3044,0,
2796,2990,3045,0,
2993,2856,3046,0,
2991,2892,3047,0,
2941,2992,3048,0,
2994,2995,3049,0,
2996,0,3050,2,
3000,0,3051,2,
3003,2866,3052,0,
2997,2725,3053,0,
3001,2727,3054,0,
3002,0,3055,2,
3008,2661,3056,0,
3011,3010,3057,0,
3007,0,3058,2,
3009,2868,3059,0,
3006,2867,3060,0,
3013,0,3061,2,
3014,2728,3062,0,
3015,85,3063,0,
3018,85,3064,0,
3019,0,3065,2,
2876,3021,3066,0,
3022,2901,3067,0,
2588,3025,3068,0,
2411,3026,3069,0,
2653,3023,3070,0,
2594,3024,3071,0,
2524,3027,3072,0,
2515,3030,3073,0,
2258,3029,3074,0,
2720,3028,3075,0,
2812,3031,3076,0,
3029,2304,3077,1,
3033,0,3078,2,
3034,0,3079,2,
3036,0,3080,2,
3035,0,3081,2,
3032,0,3082,2,
3037,2813,3083,0,
75,3038,3084,0,
74,3039,3085,0,
84,3039,3086,0,
74,3038,3087,0,
83,3038,3088,0,
84,3038,3089,0,
75,3039,3090,0,
83,3039,3091,0,
3040,3044,3092,0,
3041,2940,3093,0,
3047,3048,3094,0,
3045,3046,3095,0,
3049,0,3096,2,
3056,3058,3097,0,
3059,0,3098,2,
3062,0,3099,2,
3063,0,3100,2,
3064,0,3101,2,
2964,3065,3102,0,
3067,0,3103,2,
3066,0,3104,2,
3071,0,3105,2,
3069,0,3106,2,
3068,0,3107,2,
3072,0,3108,2,
3070,0,3109,2,
3075,0,3110,2,
3073,0,3111,2,
3074,0,3112,2,
3077,0,3113,2,
3076,0,3114,2,
75,3081,3115,0,
74,3079,3116,0,
84,3078,3117,0,
83,3080,3118,0,
84,3079,3119,0,
83,3082,3120,0,
84,3081,3121,0,
75,3082,3122,0,
75,3079,3123,0,
83,3078,3124,0,
83,3081,3125,0,
83,3079,3126,0,
74,3081,3127,0,
74,3078,3128,0,
75,3078,3129,0,
75,3080,3130,0,
84,3080,3131,0,
74,3082,3132,0,
3088,0,3133,2,
3086,0,3134,2,
3089,0,3135,2,
3090,0,3136,2,
3083,1072,3137,0,
3087,0,3138,2,
3084,0,3139,2,
3085,0,3140,2,
84,3082,3141,0,
3092,0,3142,2,
3091,0,3143,2,
2915,3093,3144,0,
3094,0,3145,2,
3095,0,3146,2,
441,3096,3147,0,
577,3096,3148,0,
441,3098,3149,0,
3097,0,3150,2,
577,3098,3151,0,
577,3099,3152,0,
587,3099,3153,0,
587,3098,3154,0,
74,3080,3155,0,
93,3103,3156,0,
125,3104,3157,0,
3155,0,3158,2,
3108,2095,3159,0,
3105,2009,3160,0,
3106,2159,3161,0,
3107,1820,3162,0,
3109,1489,3163,0,
3112,2312,3164,0,
3111,2008,3165,0,
1364,3110,3166,0,
84,3113,3167,0,
74,3113,3168,0,
3114,176,3169,0,
3122,0,3170,2,
83,3113,3171,0,
3121,0,3172,2,
3124,0,3173,2,
3128,0,3174,2,
3123,0,3175,2,
3118,0,3176,2,
3115,0,3177,2,
3130,0,3178,2,
3116,0,3179,2,
3132,0,3180,2,
3126,0,3181,2,
3117,0,3182,2,
3125,0,3183,2,
3119,0,3184,2,
3129,0,3185,2,
3120,0,3186,2,
3131,0,3187,2,
3127,0,3188,2,
75,3113,3189,0,
3141,0,3190,2,
3144,0,3191,2,
131,3142,3192,0,
93,3104,3193,0,
95,3145,3194,0,
95,3103,3195,0,
131,3146,3196,0,
93,3146,3197,0,
3147,0,3198,2,
125,3142,3199,0,
93,3145,3200,0,
95,3104,3201,0,
131,3103,3202,0,
95,3146,3203,0,
95,3142,3204,0,
131,3145,3205,0,
441,3150,3206,0,
577,3150,3207,0,
3149,0,3208,2,
3148,0,3209,2,
3151,0,3210,2,
125,3145,3211,0,
125,3103,3212,0,
131,3104,3213,0,
3152,0,3214,2,
125,3146,3215,0,
3153,0,3216,2,
3154,0,3217,2,
93,3142,3218,0,
3156,0,3219,2,
3157,0,3220,2,
1599,3160,3221,1,
1813,3159,3222,1,
1225,3163,3223,1,
1223,3162,3224,1,
2014,3161,3225,1,
1817,3165,3226,1,
2005,3164,3227,1,
744,3166,3228,1,
3168,0,3229,2,
3169,0,3230,2,
3169,84,3231,0,
3167,0,3232,2,
3180,3135,3233,0,
3181,3136,3234,0,
2889,3178,3235,0,
3133,3170,3236,0,
3171,0,3237,2,
3138,3172,3238,0,
3173,3175,3239,0,
3140,3184,3240,0,
3188,3187,3241,0,
3174,3042,3242,0,
3183,3139,3243,0,
3179,3182,3244,0,
3169,3137,3245,1,
3245,23,3246,0,
3169,3246,3247,1,
3043,3185,3248,0,
3176,3177,3249,0,
3189,0,3250,2,
3169,74,3251,0,
3143,3190,3252,0,
3192,0,3253,2,
95,3191,3254,0,
125,3191,3255,0,
3195,0,3256,2,
3197,0,3257,2,
3193,0,3258,2,
3196,0,3259,2,
131,3191,3260,0,
3194,0,3261,2,
3200,0,3262,2,
3203,0,3263,2,
3201,0,3264,2,
3199,0,3265,2,
3202,0,3266,2,
3204,0,3267,2,
3205,0,3268,2,
3198,578,3269,0,
3206,0,3270,2,
3207,0,3271,2,
3211,0,3272,2,
3213,0,3273,2,
3212,0,3274,2,
93,3191,3275,0,
3215,0,3276,2,
3218,0,3277,2,
3158,2877,3278,0,
3219,3220,3279,0,
3222,0,3280,2,
3221,0,3281,2,
3224,0,3282,2,
3223,0,3283,2,
3225,0,3284,2,
83,3227,3285,0,
83,3226,3286,0,
84,3227,3287,0,
3228,83,3288,0,
74,3226,3289,0,
74,3227,3290,0,
3229,3134,3291,0,
3228,74,3292,0,
3232,3186,3293,0,
75,3227,3294,0,
84,3226,3295,0,
75,3226,3296,0,
3228,84,3297,0,
190,3230,3298,0,
3231,0,3299,2,
3228,75,3300,0,
3243,3240,3301,0,
3248,3241,3302,0,
61,3247,3303,0,
3249,3244,3304,0,
3234,3233,3305,0,
3235,3242,3306,0,
3239,3238,3307,0,
3251,0,3308,2,
132,3227,3309,0,
3254,0,3310,2,
3247,73,3311,0,
128,3230,3312,0,
133,3247,3313,0,
3255,0,3314,2,
3261,3050,3315,0,
3258,2999,3316,0,
2726,3256,3317,0,
3260,0,3318,2,
3198,3253,3319,0,
3257,2998,3320,0,
3262,3051,3321,0,
3054,3264,3322,0,
3052,3263,3323,0,
3269,0,3324,2,
3057,3267,3325,0,
746,3247,3326,0,
751,3247,3327,0,
3275,0,3328,2,
3102,3278,3329,0,
3277,3020,3330,0,
3329,0,3331,2,
84,3281,3332,0,
75,3284,3333,0,
74,3283,3334,0,
75,3282,3335,0,
74,3280,3336,0,
84,3284,3337,0,
75,3280,3338,0,
3286,0,3339,2,
3285,0,3340,2,
3287,0,3341,2,
84,3282,3342,0,
83,3281,3343,0,
75,3283,3344,0,
83,3284,3345,0,
3289,0,3346,2,
75,3281,3347,0,
84,3280,3348,0,
74,3281,3349,0,
74,3282,3350,0,
83,3283,3351,0,
83,3280,3352,0,
3288,0,3353,2,
74,3284,3354,0,
3292,0,3355,2,
3294,0,3356,2,
83,3282,3357,0,
3298,0,3358,2,
3293,0,3359,2,
84,3283,3360,0,
3236,3291,3361,0,
3295,0,3362,2,
3297,0,3363,2,
3290,0,3364,2,
3296,0,3365,2,
3306,0,3366,2,
3303,0,3367,2,
3304,0,3368,2,
3300,0,3369,2,
130,3284,3370,0,
3305,0,3371,2,
3302,0,3372,2,
3307,0,3373,2,
3301,0,3374,2,
3309,0,3375,2,
3311,0,3376,2,
3313,0,3377,2,
3312,93,3378,0,
2865,3310,3379,0,
3279,3053,3380,0,
3315,3055,3381,0,
3316,3317,3382,0,
3323,0,3383,2,
3312,73,3384,0,
3322,0,3385,2,
3312,579,3386,0,
3325,0,3387,2,
3326,0,3388,2,
3327,0,3389,2,
3328,3276,3390,0,
3312,583,3391,0,
3333,0,3392,2,
3336,0,3393,2,
3335,0,3394,2,
3334,0,3395,2,
3338,0,3396,2,
3332,0,3397,2,
3337,0,3398,2,
3345,0,3399,2,
3344,0,3400,2,
3343,0,3401,2,
3342,0,3402,2,
3299,3353,3403,0,
3351,0,3404,2,
3349,0,3405,2,
3354,0,3406,2,
3348,0,3407,2,
3350,0,3408,2,
3352,0,3409,2,
3347,0,3410,2,
93,3359,3411,0,
3357,0,3412,2,
3186,3356,3413,0,
3360,0,3414,2,
3364,3250,3415,0,
3361,0,3416,2,
125,3331,3417,0,
125,3371,3418,0,
3370,0,3419,2,
131,3372,3420,0,
125,3368,3421,0,
93,3373,3422,0,
125,3374,3423,0,
131,3366,3424,0,
93,3368,3425,0,
131,3368,3426,0,
95,3366,3427,0,
131,3331,3428,0,
93,3331,3429,0,
125,3373,3430,0,
131,3374,3431,0,
95,3373,3432,0,
125,3372,3433,0,
93,3371,3434,0,
93,3374,3435,0,
125,3366,3436,0,
3376,63,3437,0,
3378,73,3438,0,
131,3373,3439,0,
3320,3379,3440,0,
3381,0,3441,2,
3390,3060,3442,0,
3380,0,3443,2,
131,3371,3444,0,
3382,0,3445,2,
3386,193,3446,0,
577,3385,3447,0,
441,3383,3448,0,
95,3372,3449,0,
577,3383,3450,0,
441,3387,3451,0,
577,3387,3452,0,
441,3385,3453,0,
95,3374,3454,0,
93,3366,3455,0,
93,3372,3456,0,
95,3371,3457,0,
95,3368,3458,0,
3391,193,3459,0,
95,3331,3460,0,
3340,3396,3461,0,
3346,3398,3462,0,
3237,3392,3463,0,
3393,3341,3464,0,
3339,3394,3465,0,
3395,3397,3466,0,
3363,3404,3467,0,
3403,3358,3468,0,
3405,3407,3469,0,
3401,3400,3470,0,
3355,3402,3471,0,
3232,3406,3472,0,
3409,3410,3473,0,
3399,3365,3474,0,
3408,3362,3475,0,
3415,3252,3476,0,
3411,0,3477,2,
93,3416,3478,0,
3417,0,3479,2,
3369,3412,3480,0,
3308,3414,3481,0,
95,3416,3482,0,
125,3416,3483,0,
3418,0,3484,2,
3420,0,3485,2,
3426,0,3486,2,
3425,0,3487,2,
3422,0,3488,2,
3423,0,3489,2,
3421,0,3490,2,
3424,0,3491,2,
3432,0,3492,2,
3428,0,3493,2,
3431,0,3494,2,
3341,3392,3495,0,
3427,0,3496,2,
3393,3237,3497,0,
3429,0,3498,2,
3430,0,3499,2,
3433,0,3500,2,
3434,0,3501,2,
3436,0,3502,2,
3435,0,3503,2,
3437,0,3504,2,
3438,579,3505,0,
3440,0,3506,2,
3439,0,3507,2,
131,3416,3508,0,
441,3445,3509,0,
577,3445,3510,0,
441,3441,3511,0,
3442,0,3512,2,
3444,395,3513,0,
3443,2766,3514,0,
3458,441,3515,0,
3449,441,3516,0,
3448,0,3517,2,
3446,0,3518,2,
577,3441,3519,0,
3447,0,3520,2,
3452,0,3521,2,
3450,0,3522,2,
3451,0,3523,2,
3453,0,3524,2,
3454,0,3525,2,
3455,0,3526,2,
3456,0,3527,2,
3457,0,3528,2,
3460,0,3529,2,
3444,0,3530,2,
3449,0,3531,2,
3458,0,3532,2,
3459,0,3533,2,
3438,0,3534,2,
3463,3464,3535,0,
3461,3462,3536,0,
3465,3466,3537,0,
3470,3471,3538,0,
3474,3469,3539,0,
3413,3472,3540,0,
3473,3475,3541,0,
3467,3367,3542,0,
3468,0,3543,2,
3483,0,3544,2,
3482,0,3545,2,
3480,3481,3546,0,
3479,3253,3547,0,
3476,0,3548,2,
3478,0,3549,2,
3419,3477,3550,0,
3485,3484,3551,0,
3487,3314,3552,0,
3491,3489,3553,0,
3488,3479,3554,0,
3004,3496,3555,0,
3497,3495,3556,0,
3494,2660,3557,0,
3493,3499,3558,0,
3005,3492,3559,0,
3266,3501,3560,0,
3498,3265,3561,0,
3503,3502,3562,0,
581,3504,3563,0,
3508,395,3564,0,
441,3506,3565,0,
3505,0,3566,2,
3514,0,3567,2,
3513,0,3568,2,
3509,0,3569,2,
3512,2920,3570,0,
3515,0,3571,2,
3511,0,3572,2,
3510,0,3573,2,
3519,0,3574,2,
3516,0,3575,2,
577,3506,3576,0,
3526,3272,3577,0,
3061,3525,3578,0,
3273,3528,3579,0,
3527,3274,3580,0,
3508,0,3581,2,
3531,2997,3582,0,
3532,3006,3583,0,
3016,3529,3584,0,
3537,0,3585,2,
3535,0,3586,2,
3536,0,3587,2,
3539,0,3588,2,
3538,0,3589,2,
3542,0,3590,2,
3540,0,3591,2,
3541,0,3592,2,
125,3543,3593,0,
3546,0,3594,2,
3549,3490,3595,0,
3259,3545,3596,0,
93,3548,3597,0,
3547,3488,3598,0,
3550,3375,3599,0,
3486,3544,3600,0,
125,3548,3601,0,
95,3548,3602,0,
3551,0,3603,2,
3554,3319,3604,0,
3557,0,3605,2,
747,3543,3606,0,
3561,3559,3607,0,
3558,0,3608,2,
3321,3555,3609,0,
3560,0,3610,2,
3538,77,3611,0,
3556,0,3612,2,
584,3543,3613,0,
131,3548,3614,0,
3564,0,3615,2,
750,3543,3616,0,
582,3548,3617,0,
3565,0,3618,2,
3570,0,3619,2,
3576,0,3620,2,
3577,3578,3621,0,
395,3543,3622,0,
3580,3579,3623,0,
95,3543,3624,0,
3279,3582,3625,0,
3390,3583,3626,0,
93,3543,3627,0,
3330,3584,3628,0,
131,3587,3629,0,
95,3586,3630,0,
131,3585,3631,0,
95,3587,3632,0,
131,3592,3633,0,
125,3590,3634,0,
95,3591,3635,0,
95,3588,3636,0,
125,3589,3637,0,
3602,0,3638,2,
95,3592,3639,0,
3593,0,3640,2,
93,3588,3641,0,
95,3594,3642,0,
3595,3318,3643,0,
3553,3599,3644,0,
3597,0,3645,2,
3601,0,3646,2,
3600,0,3647,2,
3552,3596,3648,0,
3604,0,3649,2,
579,3594,3650,0,
2707,3592,3651,0,
2708,3591,3652,0,
395,3586,3653,0,
3628,0,3654,2,
3602,395,3655,0,
125,3588,3656,0,
131,3588,3657,0,
395,3585,3658,0,
395,3603,3659,0,
395,3589,3660,0,
3311,3589,3661,1,
3661,77,3662,0,
3311,3662,3663,1,
395,3587,3664,0,
3611,0,3665,2,
441,3610,3666,0,
441,3608,3667,0,
747,3590,3668,0,
582,3586,3669,0,
585,3612,3670,0,
3609,0,3671,2,
586,3588,3672,0,
93,3585,3673,0,
3384,3594,3674,1,
3674,77,3675,0,
3384,3675,3676,1,
3605,2691,3677,0,
3607,0,3678,2,
3606,0,3679,2,
125,3587,3680,0,
586,3585,3681,0,
3613,0,3682,2,
95,3590,3683,0,
750,3590,3684,0,
441,3603,3685,0,
3614,395,3686,0,
3616,0,3687,2,
93,3587,3688,0,
95,3589,3689,0,
3615,3571,3690,0,
3617,0,3691,2,
131,3591,3692,0,
125,3592,3693,0,
93,3590,3694,0,
3621,0,3695,2,
131,3586,3696,0,
125,3585,3697,0,
3622,93,3698,0,
3623,0,3699,2,
125,3591,3700,0,
93,3592,3701,0,
125,3586,3702,0,
3624,0,3703,2,
3625,0,3704,2,
3614,0,3705,2,
3626,0,3706,2,
3627,0,3707,2,
125,3594,3708,0,
3629,0,3709,2,
3631,0,3710,2,
3630,0,3711,2,
3632,0,3712,2,
3639,0,3713,2,
3637,0,3714,2,
3598,3638,3715,0,
3635,0,3716,2,
3641,0,3717,2,
3634,0,3718,2,
3633,0,3719,2,
3636,0,3720,2,
395,3647,3721,0,
3648,0,3722,2,
3645,3499,3723,0,
3642,0,3724,2,
3658,95,3725,0,
441,3654,3726,0,
3657,395,3727,0,
3653,93,3728,0,
748,3663,3729,0,
3664,93,3730,0,
3655,0,3731,2,
3650,125,3732,0,
3660,95,3733,0,
3657,579,3734,0,
3659,0,3735,2,
3649,3324,3736,0,
3656,395,3737,0,
3652,0,3738,2,
3651,0,3739,2,
748,3676,3740,0,
749,3663,3741,0,
3670,0,3742,2,
3672,0,3743,2,
3677,0,3744,2,
441,3671,3745,0,
3673,395,3746,0,
3669,0,3747,2,
3680,395,3748,0,
3563,3665,3749,0,
749,3676,3750,0,
3667,0,3751,2,
3668,0,3752,2,
3666,0,3753,2,
581,3676,3754,0,
441,3678,3755,0,
3685,0,3756,2,
3684,0,3757,2,
3681,0,3758,2,
3682,3568,3759,0,
3683,395,3760,0,
3686,0,3761,2,
3689,0,3762,2,
3688,0,3763,2,
3690,3619,3764,0,
3693,0,3765,2,
3692,0,3766,2,
3694,0,3767,2,
441,3695,3768,0,
3697,395,3769,0,
441,3699,3770,0,
3698,0,3771,2,
3696,395,3772,0,
3701,0,3773,2,
3683,0,3774,2,
3700,0,3775,2,
3673,0,3776,2,
3702,0,3777,2,
3680,0,3778,2,
3703,3530,3779,0,
3663,85,3780,0,
577,3671,3781,0,
3676,85,3782,0,
3656,0,3783,2,
577,3704,3784,0,
577,3706,3785,0,
3697,0,3786,2,
577,3678,3787,0,
3696,0,3788,2,
577,3695,3789,0,
577,3699,3790,0,
577,3654,3791,0,
3708,0,3792,2,
3710,3640,3793,0,
3709,3377,3794,0,
3711,3500,3795,0,
3493,3720,3796,0,
3643,3712,3797,0,
3715,0,3798,2,
3719,3718,3799,0,
3716,3268,3800,0,
3717,3646,3801,0,
3644,3713,3802,0,
3507,3724,3803,0,
395,3722,3804,0,
3721,0,3805,2,
3734,0,3806,2,
441,3722,3807,0,
3566,3731,3808,0,
3733,0,3809,2,
3736,0,3810,2,
3738,3739,3811,0,
3732,0,3812,2,
3730,0,3813,2,
3725,0,3814,2,
3728,0,3815,2,
3735,3679,3816,0,
3729,0,3817,2,
3727,0,3818,2,
3726,0,3819,2,
3737,0,3820,2,
3741,0,3821,2,
3747,3573,3822,0,
3748,0,3823,2,
3749,0,3824,2,
3742,3567,3825,0,
3746,0,3826,2,
3740,0,3827,2,
3572,3752,3828,0,
3755,0,3829,2,
3745,0,3830,2,
3753,3520,3831,0,
3754,0,3832,2,
3743,3751,3833,0,
3750,0,3834,2,
3756,3687,3835,0,
3757,3574,3836,0,
3760,0,3837,2,
3762,3486,3838,0,
3763,3544,3839,0,
3766,3765,3840,0,
3768,0,3841,2,
3214,3771,3842,0,
3772,0,3843,2,
3770,0,3844,2,
3769,0,3845,2,
3791,0,3846,2,
3792,3534,3847,0,
3774,3494,3848,0,
3773,3775,3849,0,
3777,3776,3850,0,
3780,0,3851,2,
3581,3778,3852,0,
3781,0,3853,2,
3705,3783,3854,0,
3782,0,3855,2,
3784,0,3856,2,
3785,0,3857,2,
3707,3786,3858,0,
3787,0,3859,2,
3789,0,3860,2,
3790,0,3861,2,
577,3722,3862,0,
3534,3792,3863,0,
3863,0,3864,2,
3795,0,3865,2,
3794,3714,3866,0,
3793,0,3867,2,
441,3798,3868,0,
3802,0,3869,2,
3801,0,3870,2,
3560,3795,3871,0,
3562,3800,3872,0,
3797,0,3873,2,
3799,0,3874,2,
3723,3796,3875,0,
3805,3388,3876,0,
3804,0,3877,2,
3803,0,3878,2,
3816,3814,3879,0,
3817,3517,3880,0,
3815,3569,3881,0,
3808,3806,3882,0,
3810,3812,3883,0,
3819,3518,3884,0,
3813,3618,3885,0,
3807,0,3886,2,
3811,3744,3887,0,
3818,3209,3888,0,
3820,3012,3889,0,
3827,3523,3890,0,
3834,3521,3891,0,
3822,3758,3892,0,
3821,3522,3893,0,
3761,3829,3894,0,
3825,3575,3895,0,
3833,3691,3896,0,
3824,3823,3897,0,
3759,3826,3898,0,
3839,3838,3899,0,
3840,3767,3900,0,
3841,3100,3901,0,
3843,3845,3902,0,
3842,3844,3903,0,
3847,0,3904,2,
3849,3848,3905,0,
3850,3779,3906,0,
3852,3851,3907,0,
3854,3855,3908,0,
3858,3788,3909,0,
3801,3803,3910,0,
3862,0,3911,2,
441,3865,3912,0,
583,3867,3913,0,
395,3864,3914,0,
3866,0,3915,2,
579,3874,3916,0,
3871,0,3917,2,
395,3869,3918,0,
583,3874,3919,0,
3875,0,3920,2,
3872,0,3921,2,
395,3873,3922,0,
3868,0,3923,2,
395,3870,3924,0,
441,3869,3925,0,
441,3873,3926,0,
579,3867,3927,0,
395,3878,3928,0,
3876,3809,3929,0,
3877,3208,3930,0,
3879,3881,3931,0,
3882,3883,3932,0,
3889,3832,3933,0,
3887,3830,3934,0,
3886,3210,3935,0,
3896,3891,3936,0,
3897,3764,3937,0,
3895,3898,3938,0,
3835,3892,3939,0,
3899,0,3940,2,
3900,0,3941,2,
3903,3902,3942,0,
3905,0,3943,2,
3906,0,3944,2,
3907,0,3945,2,
3908,0,3946,2,
3909,0,3947,2,
3910,0,3948,2,
308,3904,3949,0,
3912,0,3950,2,
579,3915,3951,0,
3914,0,3952,2,
3913,0,3953,2,
395,3917,3954,0,
3916,0,3955,2,
395,3921,3956,0,
3924,0,3957,2,
441,3921,3958,0,
3919,0,3959,2,
3918,0,3960,2,
395,3920,3961,0,
395,3915,3962,0,
3922,0,3963,2,
3929,3885,3964,0,
3928,0,3965,2,
3925,0,3966,2,
3927,0,3967,2,
3926,0,3968,2,
3934,3837,3969,0,
3933,3894,3970,0,
3939,3936,3971,0,
3938,3937,3972,0,
441,3940,3973,0,
3936,0,3974,2,
3939,0,3975,2,
3931,0,3976,2,
395,3941,3977,0,
3938,0,3978,2,
3937,0,3979,2,
3942,0,3980,2,
441,3943,3981,0,
441,3944,3982,0,
441,3945,3983,0,
441,3946,3984,0,
441,3941,3985,0,
441,3947,3986,0,
441,3915,3987,0,
441,3948,3988,0,
3932,0,3989,2,
3949,0,3990,2,
3951,0,3991,2,
3950,3953,3992,0,
3952,3923,3993,0,
3880,3963,3994,0,
3961,0,3995,2,
3828,3960,3996,0,
3884,3957,3997,0,
3956,0,3998,2,
3270,3955,3999,0,
3954,0,4000,2,
3271,3959,4001,0,
3958,0,4002,2,
3962,0,4003,2,
3893,3968,4004,0,
3836,3966,4005,0,
3931,3964,4006,0,
3970,3969,4007,0,
3973,0,4008,2,
3969,3938,4009,0,
3964,0,4010,2,
3977,0,4011,2,
3969,0,4012,2,
3970,0,4013,2,
753,3990,4014,0,
3981,0,4015,2,
3982,0,4016,2,
3983,0,4017,2,
3984,0,4018,2,
3985,0,4019,2,
3986,0,4020,2,
3987,0,4021,2,
3988,0,4022,2,
3930,3991,4023,0,
3992,3831,4024,0,
3993,3888,4025,0,
4000,3967,4026,0,
3997,3965,4027,0,
4001,4002,4028,0,
3935,4003,4029,0,
3999,3998,4030,0,
3890,3995,4031,0,
3994,3996,4032,0,
4004,4005,4033,0,
3936,4004,4034,0,
4007,3972,4035,0,
4008,3389,4036,0,
4004,0,4037,2,
4005,0,4038,2,
3996,0,4039,2,
3901,4011,4040,0,
4009,3937,4041,0,
3994,0,4042,2,
4022,3533,4043,0,
4015,2662,4044,0,
4016,2729,4045,0,
4017,2869,4046,0,
4018,3017,4047,0,
4019,3101,4048,0,
4020,3216,4049,0,
3886,4003,4050,0,
4021,3217,4051,0,
4023,0,4052,2,
4046,3857,4053,0,
4024,4025,4054,0,
3932,4023,4055,0,
4006,4027,4056,0,
4026,3524,4057,0,
4032,4031,4058,0,
3971,4033,4059,0,
3936,4033,4060,0,
4028,4025,4061,0,
4034,4035,4062,0,
4036,3620,4063,0,
4024,0,4064,2,
4028,0,4065,2,
4025,0,4066,2,
4031,3994,4067,0,
4027,0,4068,2,
4031,0,4069,2,
4040,0,4070,2,
4030,0,4071,2,
4044,3853,4072,0,
4045,3856,4073,0,
4047,3859,4074,0,
4048,3860,4075,0,
4049,3861,4076,0,
3942,4040,4077,0,
4051,3911,4078,0,
4050,3210,4079,0,
4043,3846,4080,0,
4052,31,4081,0,
4077,4029,4082,0,
4028,4054,4083,0,
4030,4055,4084,0,
4058,4057,4085,0,
4059,4035,4086,0,
4035,4060,4087,0,
4063,0,4088,2,
4009,4056,4089,0,
4041,4056,4090,0,
4057,0,4091,2,
4055,0,4092,2,
4078,0,4093,2,
4080,0,4094,2,
4072,0,4095,2,
4073,0,4096,2,
4053,0,4097,2,
4075,0,4098,2,
4076,0,4099,2,
4074,0,4100,2,
3989,4081,4101,1,
4082,4083,4102,0,
4056,4084,4103,0,
4035,4082,4104,0,
4067,4084,4105,0,
4085,4084,4106,0,
4084,4006,4107,0,
4057,4084,4108,0,
4084,0,4109,2,
31,4092,4110,0,
4102,4035,4111,0,
4103,4085,4112,0,
4104,4061,4113,0,
4102,4087,4114,0,
4086,4102,4115,0,
4062,4102,4116,0,
4105,4057,4117,0,
4106,0,4118,2,
4107,4085,4119,0,
4089,4106,4120,0,
4106,3931,4121,0,
4108,3994,4122,0,
4090,4106,4123,0,
4108,0,4124,2,
31,4109,4125,0,
4071,4110,4126,1,
4101,0,4127,2,
4101,4023,4128,0,
4104,4112,4129,0,
4111,4112,4130,0,
4115,4112,4131,0,
4116,4112,4132,0,
4112,4114,4133,0,
4113,4112,4134,0,
4117,0,4135,2,
31,4118,4136,0,
4112,3969,4137,0,
4120,0,4138,2,
4122,0,4139,2,
4121,0,4140,2,
4119,0,4141,2,
4112,0,4142,2,
4112,4035,4143,0,
4123,0,4144,2,
31,4124,4145,0,
4091,4125,4146,1,
4126,0,4147,2,
4126,4127,4148,1,
4130,4004,4149,0,
4129,4025,4150,0,
4129,0,4151,2,
4130,0,4152,2,
4133,0,4153,2,
4131,0,4154,2,
4134,0,4155,2,
4132,0,4156,2,
31,4135,4157,0,
3976,4136,4158,1,
4137,0,4159,2,
31,4138,4160,0,
31,4140,4161,0,
31,4141,4162,0,
31,4139,4163,0,
31,4142,4164,0,
4143,4040,4165,0,
4143,0,4166,2,
31,4144,4167,0,
4146,0,4168,2,
4042,4145,4169,1,
4146,4147,4170,1,
4148,0,4171,2,
4146,4126,4172,0,
4146,4101,4173,0,
4143,4077,4174,0,
4133,4063,4175,0,
4013,4167,4176,1,
4069,4163,4177,1,
4150,0,4178,2,
4149,0,4179,2,
31,4155,4180,0,
31,4151,4181,0,
31,4152,4182,0,
31,4153,4183,0,
31,4154,4184,0,
31,4156,4185,0,
4039,4157,4186,1,
31,4159,4187,0,
4158,0,4188,2,
4010,4161,4189,1,
4068,4162,4190,1,
3979,4160,4191,1,
4169,0,4192,2,
4012,4164,4193,1,
4165,0,4194,2,
31,4166,4195,0,
4168,4169,4196,0,
4170,0,4197,2,
4101,4158,4198,0,
4158,4052,4199,0,
4126,4169,4200,0,
4126,4158,4201,0,
4146,4169,4202,0,
4169,4158,4203,0,
4146,4158,4204,0,
4174,0,4205,2,
3939,4175,4206,0,
4206,0,4207,2,
31,4179,4208,0,
31,4178,4209,0,
4038,4185,4210,1,
4064,4180,4211,1,
4066,4181,4212,1,
3975,4183,4213,1,
4037,4182,4214,1,
4088,4184,4215,1,
4186,4158,4216,0,
3978,4187,4217,1,
4186,4188,4218,1,
4177,0,4219,2,
4176,0,4220,2,
4193,0,4221,2,
4177,4192,4222,1,
4189,4188,4223,1,
4189,0,4224,2,
4070,4195,4225,1,
31,4194,4226,0,
4146,4192,4227,0,
4196,0,4228,2,
4197,4148,4229,0,
4101,4176,4230,0,
4176,4052,4231,0,
4177,4191,4232,0,
4169,4176,4233,0,
4126,4176,4234,0,
4186,4101,4235,0,
4177,4126,4236,0,
4169,4191,4237,0,
4191,4052,4238,0,
4198,0,4239,2,
4169,4193,4240,0,
4189,4158,4241,0,
4177,4176,4242,0,
4190,4101,4243,0,
4189,4052,4244,0,
4177,4101,4245,0,
4193,4052,4246,0,
4146,4176,4247,0,
4200,0,4248,2,
4190,4052,4249,0,
4186,4190,4250,0,
4177,4158,4251,0,
4177,4189,4252,0,
4126,4191,4253,0,
4200,4101,4254,0,
4191,4193,4255,0,
4177,4052,4256,0,
4177,4193,4257,0,
4177,4190,4258,0,
4196,4177,4259,0,
4186,4191,4260,0,
4190,4193,4261,0,
4177,4146,4262,0,
4126,4190,4263,0,
4190,4189,4264,0,
4189,4169,4265,0,
4158,4193,4266,0,
4186,4052,4267,0,
4146,4190,4268,0,
4190,4176,4269,0,
4186,4126,4270,0,
4186,4177,4271,0,
4146,4193,4272,0,
4101,4191,4273,0,
4126,4193,4274,0,
4146,4191,4275,0,
4189,4193,4276,0,
4202,0,4277,2,
4186,4169,4278,0,
4158,4176,4279,0,
4126,4189,4280,0,
4190,4158,4281,0,
4190,4169,4282,0,
4190,4191,4283,0,
4146,4189,4284,0,
4158,4191,4285,0,
4189,4101,4286,0,
4177,4169,4287,0,
4101,4193,4288,0,
4189,4191,4289,0,
4193,4176,4290,0,
4186,4146,4291,0,
4186,4193,4292,0,
4186,4176,4293,0,
4189,4176,4294,0,
4186,4189,4295,0,
4191,4176,4296,0,
4101,4192,4297,1,
4127,4192,4298,0,
4094,4206,4299,1,
31,4205,4300,0,
4217,4225,4301,0,
3980,4226,4302,1,
4065,4209,4303,1,
3974,4208,4304,1,
4212,0,4305,2,
4210,0,4306,2,
4214,0,4307,2,
4213,0,4308,2,
4215,0,4309,2,
4211,0,4310,2,
4214,4211,4311,0,
4215,4213,4312,0,
4186,4219,4313,1,
4190,4221,4314,1,
4191,4220,4315,1,
4217,0,4316,2,
4218,0,4317,2,
4190,4224,4318,1,
4223,0,4319,2,
4222,0,4320,2,
4225,0,4321,2,
4225,4220,4322,0,
4227,0,4323,2,
4225,4052,4324,0,
4230,0,4325,2,
4146,4217,4326,0,
4158,4231,4327,1,
4126,4217,4328,0,
4101,4217,4329,0,
4186,4217,4330,0,
4235,0,4331,2,
4169,4225,4332,0,
4146,4225,4333,0,
4245,0,4334,2,
4196,4236,4335,1,
4243,0,4336,2,
4217,4052,4337,0,
4239,4244,4338,1,
4242,0,4339,2,
4177,4217,4340,0,
4177,4249,4341,1,
4193,4217,4342,0,
4169,4217,4343,0,
4261,0,4344,2,
4198,4244,4345,0,
4254,4177,4346,0,
4126,4225,4347,0,
4235,4052,4348,0,
4191,4217,4349,0,
4259,4126,4350,0,
4256,4172,4351,1,
4255,0,4352,2,
4172,4256,4353,0,
4246,4243,4354,0,
4291,4286,4355,1,
4190,4217,4356,0,
4158,4217,4357,0,
4267,4217,4358,0,
4189,4217,4359,0,
4101,4225,4360,0,
4279,4052,4361,0,
4217,4176,4362,0,
4189,4225,4363,0,
4193,4225,4364,0,
4286,4291,4365,0,
4190,4225,4366,0,
4269,4255,4367,0,
4256,4190,4368,0,
4186,4225,4369,0,
4177,4225,4370,0,
4158,4225,4371,0,
4296,0,4372,2,
4191,4225,4373,0,
4225,4176,4374,0,
4297,0,4375,2,
4298,0,4376,2,
4094,4207,4377,0,
4299,0,4378,2,
4300,0,4379,2,
4094,4378,4380,1,
4380,31,4381,0,
4094,4381,4382,1,
4321,4302,4383,0,
4303,0,4384,2,
4304,0,4385,2,
4303,4310,4386,0,
4309,4210,4387,0,
4308,4304,4388,0,
4215,4308,4389,0,
4303,4211,4390,0,
4212,4307,4391,0,
4305,4307,4392,0,
4303,4212,4393,0,
4214,4310,4394,0,
4309,4306,4395,0,
4303,4305,4396,0,
4213,4304,4397,0,
4304,4306,4398,0,
4304,4210,4399,0,
4313,0,4400,2,
4314,0,4401,2,
4317,4222,4402,0,
4315,0,4403,2,
4193,4316,4404,1,
4191,4316,4405,1,
4318,0,4406,2,
4314,4319,4407,0,
4317,4320,4408,0,
4218,4320,4409,0,
4302,0,4410,2,
4321,4176,4411,0,
4322,0,4412,2,
4379,4079,4413,1,
4323,4228,4414,0,
4126,4302,4415,0,
4302,4052,4416,0,
4101,4302,4417,0,
4325,4324,4418,1,
4327,4328,4419,1,
4329,0,4420,2,
4331,4199,4421,1,
4339,4332,4422,1,
4334,4248,4423,0,
4338,0,4424,2,
4336,4246,4425,1,
4186,4337,4426,1,
4169,4302,4427,0,
4341,4201,4428,1,
4338,4262,4429,1,
4186,4302,4430,0,
4342,0,4431,2,
4146,4302,4432,0,
4352,4269,4433,1,
4324,4230,4434,0,
4348,4158,4435,0,
4345,0,4436,2,
4349,0,4437,2,
4189,4302,4438,0,
4193,4344,4439,0,
4351,4146,4440,0,
4350,0,4441,2,
4238,4329,4442,0,
4328,4327,4443,0,
4354,0,4444,2,
4263,4302,4445,0,
4356,0,4446,2,
4191,4302,4447,0,
4217,4302,4448,0,
4362,0,4449,2,
4158,4302,4450,0,
4201,4341,4451,0,
4361,0,4452,2,
4367,0,4453,2,
4332,4242,4454,0,
4365,0,4455,2,
4190,4302,4456,0,
4244,4302,4457,0,
4240,4302,4458,0,
4177,4302,4459,0,
4289,4356,4460,0,
4193,4302,4461,0,
4176,4372,4462,0,
4364,4362,4463,0,
4176,4302,4464,0,
4373,0,4465,2,
4374,0,4466,2,
4225,4302,4467,0,
4377,4095,4468,0,
4377,0,4469,2,
4393,4311,4470,0,
4388,4395,4471,0,
4176,4413,4472,0,
4190,4413,4473,0,
4468,4096,4474,0,
4384,4212,4475,0,
4384,4211,4476,0,
4385,4306,4477,0,
4384,4310,4478,0,
4308,4385,4479,0,
4393,4394,4480,0,
4386,4391,4481,0,
4390,4392,4482,0,
4396,4394,4483,0,
4391,4310,4484,0,
4398,4389,4485,0,
4388,4387,4486,0,
4398,4312,4487,0,
4384,4305,4488,0,
4213,4385,4489,0,
4399,4312,4490,0,
4397,4387,4491,0,
4396,4311,4492,0,
4385,4210,4493,0,
4390,4391,4494,0,
4399,4389,4495,0,
4386,4392,4496,0,
4397,4395,4497,0,
4403,4404,4498,0,
4404,0,4499,2,
4409,0,4500,2,
4408,0,4501,2,
4405,0,4502,2,
4401,4319,4503,0,
4222,4400,4504,0,
4402,4313,4505,0,
4406,4223,4506,0,
4401,4223,4507,0,
4407,0,4508,2,
4225,4410,4509,0,
4383,0,4510,2,
4411,0,4511,2,
4413,0,4512,2,
4414,0,4513,2,
4414,4171,4514,0,
4413,4052,4515,0,
4190,4415,4516,1,
4189,4416,4517,1,
4418,4326,4518,1,
4420,4238,4519,1,
4419,4216,4520,1,
4421,4335,4521,1,
4262,4424,4522,0,
4426,4263,4523,1,
4425,0,4524,2,
4422,4260,4525,1,
4418,0,4526,2,
4421,0,4527,2,
4423,0,4528,2,
4263,4426,4529,0,
4428,4287,4530,1,
4101,4413,4531,0,
4429,4270,4532,1,
4430,0,4533,2,
4217,4431,4534,0,
4427,0,4535,2,
4429,0,4536,2,
4277,4441,4537,0,
4425,4278,4538,1,
4434,0,4539,2,
4191,4437,4540,0,
4433,0,4541,2,
4438,0,4542,2,
4440,0,4543,2,
4216,4419,4544,0,
4443,0,4545,2,
4442,0,4546,2,
4126,4413,4547,0,
4422,0,4548,2,
4433,4363,4549,1,
4445,0,4550,2,
4287,4428,4551,0,
4446,4289,4552,1,
4447,4189,4553,0,
4448,4186,4554,0,
4449,4364,4555,1,
4158,4413,4556,0,
4451,0,4557,2,
4189,4413,4558,0,
4454,0,4559,2,
4186,4413,4560,0,
4146,4413,4561,0,
4458,0,4562,2,
4169,4413,4563,0,
4460,0,4564,2,
4177,4413,4565,0,
4461,0,4566,2,
4463,0,4567,2,
4464,4193,4568,0,
4193,4413,4569,0,
4465,4448,4570,1,
4447,0,4571,2,
4373,4448,4572,0,
4217,4413,4573,0,
4322,4447,4574,0,
4191,4413,4575,0,
4467,0,4576,2,
4225,4413,4577,0,
4410,4413,4578,0,
4302,4413,4579,0,
4382,0,4580,2,
4127,4413,4581,0,
4375,4413,4582,0,
4468,0,4583,2,
4469,4072,4584,1,
4302,4512,4585,1,
4479,4387,4586,0,
4475,4394,4587,0,
4489,4395,4588,0,
4477,4389,4589,0,
4476,4391,4590,0,
4475,4311,4591,0,
4476,4392,4592,0,
4478,4392,4593,0,
4477,4312,4594,0,
4493,4389,4595,0,
4484,4384,4596,0,
4479,4395,4597,0,
4482,4485,4598,0,
4480,4490,4599,0,
4487,4492,4600,0,
4486,4470,4601,0,
4488,4394,4602,0,
4488,4311,4603,0,
4493,4312,4604,0,
4489,4387,4605,0,
4491,4481,4606,0,
4496,4491,4607,0,
4495,4480,4608,0,
4495,4496,4609,0,
4482,4490,4610,0,
4494,4490,4611,0,
4485,4480,4612,0,
4481,4490,4613,0,
4495,4470,4614,0,
4487,4494,4615,0,
4485,4492,4616,0,
4495,4483,4617,0,
4470,4490,4618,0,
4497,4494,4619,0,
4482,4471,4620,0,
4486,4481,4621,0,
4492,4490,4622,0,
4496,4490,4623,0,
4483,4471,4624,0,
4487,4470,4625,0,
4471,4494,4626,0,
4491,4492,4627,0,
4482,4491,4628,0,
4483,4491,4629,0,
4495,4492,4630,0,
4487,4481,4631,0,
4495,4482,4632,0,
4495,4481,4633,0,
4483,4490,4634,0,
4471,4492,4635,0,
4483,4485,4636,0,
4471,4480,4637,0,
4486,4492,4638,0,
4496,4497,4639,0,
4482,4486,4640,0,
4485,4494,4641,0,
4487,4496,4642,0,
4483,4497,4643,0,
4487,4482,4644,0,
4497,4470,4645,0,
4497,4481,4646,0,
4491,4470,4647,0,
4482,4497,4648,0,
4483,4486,4649,0,
4485,4470,4650,0,
4495,4494,4651,0,
4486,4494,4652,0,
4491,4494,4653,0,
4496,4485,4654,0,
4486,4496,4655,0,
4483,4487,4656,0,
4471,4496,4657,0,
4485,4481,4658,0,
4497,4480,4659,0,
4486,4480,4660,0,
4491,4480,4661,0,
4497,4492,4662,0,
4471,4481,4663,0,
4487,4480,4664,0,
4490,0,4665,2,
4498,4405,4666,0,
4315,4499,4667,0,
4403,4499,4668,0,
4502,4404,4669,0,
4501,4500,4670,0,
4503,0,4671,2,
4509,0,4672,2,
4507,4318,4673,0,
4511,4412,4674,0,
4148,4513,4675,0,
4513,4171,4676,0,
4516,4232,4677,1,
4515,0,4678,2,
4517,4234,4679,1,
4518,4240,4680,1,
4519,4251,4681,1,
4520,4252,4682,1,
4521,0,4683,2,
4271,4523,4684,0,
4528,4267,4685,1,
4278,4524,4686,0,
4326,4526,4687,0,
4522,0,4688,2,
4519,0,4689,2,
4527,4335,4690,0,
4518,0,4691,2,
4525,4432,4692,1,
4523,4271,4693,1,
4530,4355,4694,1,
4533,4534,4695,1,
4529,0,4696,2,
4532,4435,4697,1,
4267,4528,4698,0,
4535,4439,4699,1,
4232,4516,4700,0,
4252,4520,4701,0,
4541,4189,4702,0,
4544,0,4703,2,
4542,4540,4704,1,
4126,4543,4705,0,
4537,0,4706,2,
4536,4126,4707,0,
4538,4280,4708,1,
4548,4186,4709,0,
4530,4355,4710,0,
4538,0,4711,2,
4549,4450,4712,1,
4532,0,4713,2,
4234,4517,4714,0,
4552,4279,4715,1,
4525,0,4716,2,
4417,4515,4717,0,
4551,0,4718,2,
4555,4456,4719,1,
4553,0,4720,2,
4554,0,4721,2,
4549,0,4722,2,
4552,0,4723,2,
4562,4344,4724,0,
4555,0,4725,2,
4566,4462,4726,1,
4301,4473,4727,1,
4473,4301,4728,0,
4568,0,4729,2,
4570,4569,4730,1,
4570,0,4731,2,
4572,0,4732,2,
4571,4322,4733,1,
4574,0,4734,2,
4464,4575,4735,1,
4575,4464,4736,0,
4472,4383,4737,1,
4383,4472,4738,0,
4579,0,4739,2,
4584,0,4740,2,
4581,0,4741,2,
4101,4512,4742,0,
4514,0,4743,2,
4583,4073,4744,1,
4474,4097,4745,0,
4474,4053,4746,1,
4471,4470,4747,0,
4674,0,4748,2,
4585,0,4749,2,
4603,4490,4750,0,
4591,4588,4751,0,
4586,4480,4752,0,
4589,4587,4753,0,
4593,4485,4754,0,
4483,4586,4755,0,
4594,4481,4756,0,
4592,4586,4757,0,
4587,4586,4758,0,
4486,4590,4759,0,
4590,4588,4760,0,
4589,4494,4761,0,
4588,4492,4762,0,
4482,4588,4763,0,
4596,4491,4764,0,
4471,4587,4765,0,
4591,4486,4766,0,
4598,0,4767,2,
4589,4482,4768,0,
4595,4480,4769,0,
4597,4480,4770,0,
4483,4597,4771,0,
4483,4595,4772,0,
4596,4486,4773,0,
4486,4603,4774,0,
4604,4492,4775,0,
4587,4605,4776,0,
4599,0,4777,2,
4594,4593,4778,0,
4589,4602,4779,0,
4604,4470,4780,0,
4591,4487,4781,0,
4596,4586,4782,0,
4601,0,4783,2,
4597,4470,4784,0,
4600,0,4785,2,
4602,4485,4786,0,
4588,4481,4787,0,
4594,4482,4788,0,
4487,4587,4789,0,
4593,4497,4790,0,
4597,4494,4791,0,
4593,4605,4792,0,
4491,4587,4793,0,
4589,4481,4794,0,
4587,4490,4795,0,
4596,4604,4796,0,
4596,4597,4797,0,
4597,4496,4798,0,
4588,4480,4799,0,
4586,4481,4800,0,
4594,4483,4801,0,
4610,0,4802,2,
4592,4588,4803,0,
4471,4603,4804,0,
4607,0,4805,2,
4594,4592,4806,0,
4595,4482,4807,0,
4608,0,4808,2,
4487,4593,4809,0,
4597,4590,4810,0,
4470,4605,4811,0,
4495,4587,4812,0,
4591,4491,4813,0,
4591,4605,4814,0,
4592,4486,4815,0,
4612,0,4816,2,
4586,4494,4817,0,
4494,4588,4818,0,
4594,4480,4819,0,
4496,4588,4820,0,
4613,0,4821,2,
4604,4480,4822,0,
4592,4597,4823,0,
4589,4592,4824,0,
4589,4480,4825,0,
4594,4494,4826,0,
4606,0,4827,2,
4596,4471,4828,0,
4595,4470,4829,0,
4594,4492,4830,0,
4496,4605,4831,0,
4590,4586,4832,0,
4589,4593,4833,0,
4485,4603,4834,0,
4611,0,4835,2,
4590,4485,4836,0,
4747,0,4837,2,
4609,0,4838,2,
4596,4595,4839,0,
4589,4603,4840,0,
4595,4587,4841,0,
4622,0,4842,2,
4620,0,4843,2,
4596,4495,4844,0,
4604,4482,4845,0,
4604,4602,4846,0,
4497,4587,4847,0,
4594,4496,4848,0,
4597,4492,4849,0,
4471,4602,4850,0,
4597,4603,4851,0,
4591,4597,4852,0,
4604,4592,4853,0,
4482,4586,4854,0,
4615,0,4855,2,
4594,4602,4856,0,
4470,4588,4857,0,
4614,0,4858,2,
4596,4490,4859,0,
4589,4590,4860,0,
4487,4592,4861,0,
4595,4481,4862,0,
4593,4586,4863,0,
4491,4602,4864,0,
4602,4605,4865,0,
4604,4483,4866,0,
4604,4591,4867,0,
4604,4590,4868,0,
4589,4591,4869,0,
4596,4497,4870,0,
4495,4591,4871,0,
4596,4589,4872,0,
4624,0,4873,2,
4621,0,4874,2,
4591,4471,4875,0,
4602,4586,4876,0,
4623,0,4877,2,
4487,4603,4878,0,
4604,4481,4879,0,
4590,4490,4880,0,
4618,0,4881,2,
4487,4590,4882,0,
4617,0,4883,2,
4592,4497,4884,0,
4619,0,4885,2,
4497,4603,4886,0,
4482,4605,4887,0,
4594,4587,4888,0,
4588,4603,4889,0,
4591,4595,4890,0,
4616,0,4891,2,
4602,4588,4892,0,
4483,4589,4893,0,
4605,4481,4894,0,
4595,4494,4895,0,
4590,4605,4896,0,
4483,4588,4897,0,
4596,4588,4898,0,
4597,4587,4899,0,
4639,0,4900,2,
4593,4490,4901,0,
4635,0,4902,2,
4589,4470,4903,0,
4636,0,4904,2,
4637,0,4905,2,
4471,4590,4906,0,
4638,0,4907,2,
4589,4492,4908,0,
4495,4590,4909,0,
4595,4492,4910,0,
4595,4593,4911,0,
4491,4603,4912,0,
4632,0,4913,2,
4596,4605,4914,0,
4586,4603,4915,0,
4634,0,4916,2,
4587,4588,4917,0,
4592,4485,4918,0,
4630,0,4919,2,
4628,0,4920,2,
4626,0,4921,2,
4491,4590,4922,0,
4586,4492,4923,0,
4631,0,4924,2,
4629,0,4925,2,
4640,0,4926,2,
4627,0,4927,2,
4589,4496,4928,0,
4594,4603,4929,0,
4633,0,4930,2,
4604,4593,4931,0,
4497,4602,4932,0,
4591,4586,4933,0,
4625,0,4934,2,
4593,4588,4935,0,
4605,4603,4936,0,
4592,4490,4937,0,
4648,0,4938,2,
4604,4494,4939,0,
4597,4481,4940,0,
4595,4592,4941,0,
4595,4603,4942,0,
4494,4605,4943,0,
4604,4496,4944,0,
4646,0,4945,2,
4495,4592,4946,0,
4641,0,4947,2,
4483,4605,4948,0,
4495,4593,4949,0,
4604,4603,4950,0,
4647,0,4951,2,
4594,4470,4952,0,
4644,0,4953,2,
4642,0,4954,2,
4597,4602,4955,0,
4593,4491,4956,0,
4471,4593,4957,0,
4596,4487,4958,0,
4645,0,4959,2,
4643,0,4960,2,
4486,4587,4961,0,
4649,0,4962,2,
4591,4490,4963,0,
4595,4602,4964,0,
4492,4605,4965,0,
4487,4602,4966,0,
4486,4593,4967,0,
4658,0,4968,2,
4596,4594,4969,0,
4497,4590,4970,0,
4605,4480,4971,0,
4470,4586,4972,0,
4654,0,4973,2,
4651,0,4974,2,
4656,0,4975,2,
4486,4602,4976,0,
4653,0,4977,2,
4655,0,4978,2,
4597,4593,4979,0,
4591,4497,4980,0,
4652,0,4981,2,
4594,4590,4982,0,
4592,4605,4983,0,
4650,0,4984,2,
4657,0,4985,2,
4661,0,4986,2,
4660,0,4987,2,
4595,4590,4988,0,
4602,4490,4989,0,
4659,0,4990,2,
4663,0,4991,2,
4594,4591,4992,0,
4662,0,4993,2,
4495,4602,4994,0,
4596,4485,4995,0,
4495,4603,4996,0,
4604,4587,4997,0,
4482,4597,4998,0,
4496,4586,4999,0,
4664,0,5000,2,
4595,4496,5001,0,
4592,4471,5002,0,
4588,0,5003,2,
4594,0,5004,2,
4605,0,5005,2,
4595,0,5006,2,
4597,0,5007,2,
4670,0,5008,2,
4668,0,5009,2,
4667,0,5010,2,
4508,4671,5011,0,
4672,4510,5012,0,
4675,4170,5013,0,
4485,4587,5014,0,
4678,4417,5015,1,
4677,4233,5016,1,
4679,4241,5017,1,
4680,4253,5018,1,
4682,4282,5019,1,
4681,4265,5020,1,
4346,4683,5021,0,
4680,0,5022,2,
4684,0,5023,2,
4436,4688,5024,0,
4681,0,5025,2,
4353,4685,5026,0,
4251,4689,5027,0,
4692,4276,5028,1,
4687,0,5029,2,
4686,0,5030,2,
4690,0,5031,2,
4693,4203,5032,1,
4240,4691,5033,0,
4697,0,5034,2,
4699,4359,5035,1,
4698,0,5036,2,
4695,4283,5037,1,
4233,4677,5038,0,
4282,4682,5039,0,
4708,0,5040,2,
4702,4225,5041,0,
4692,0,5042,2,
4705,0,5043,2,
4700,0,5044,2,
4695,0,5045,2,
4704,4290,5046,1,
4707,4186,5047,0,
4701,0,5048,2,
4545,4703,5049,0,
4203,4693,5050,0,
4710,0,5051,2,
4241,4679,5052,0,
4709,4191,5053,0,
4280,4711,5054,0,
4708,4204,5055,1,
4440,4685,5056,0,
4432,4716,5057,0,
4704,0,5058,2,
4714,0,5059,2,
4712,0,5060,2,
4435,4713,5061,0,
4715,4369,5062,1,
4557,4718,5063,0,
4717,0,5064,2,
4721,4431,5065,0,
4712,4560,5066,1,
4720,4437,5067,0,
4719,4558,5068,1,
4715,0,5069,2,
4450,4722,5070,0,
4699,0,5071,2,
4279,4723,5072,0,
4724,0,5073,2,
4719,0,5074,2,
4725,4190,5075,0,
4726,0,5076,2,
4726,4727,5077,1,
4728,0,5078,2,
4729,4372,5079,0,
4730,0,5080,2,
4731,4193,5081,0,
4733,4573,5082,1,
4733,0,5083,2,
4466,4734,5084,0,
4736,0,5085,2,
4738,0,5086,2,
4742,0,5087,2,
4676,0,5088,2,
4592,4491,5089,0,
4744,0,5090,2,
4745,0,5091,2,
4299,4740,5092,0,
4740,4378,5093,1,
4745,4100,5094,0,
4591,4485,5095,0,
5001,0,5096,2,
4753,0,5097,2,
4752,0,5098,2,
4755,0,5099,2,
4759,0,5100,2,
4754,0,5101,2,
4756,0,5102,2,
4751,0,5103,2,
4758,0,5104,2,
4757,0,5105,2,
4762,0,5106,2,
4760,0,5107,2,
4766,0,5108,2,
4761,0,5109,2,
4765,0,5110,2,
4764,0,5111,2,
4771,0,5112,2,
4768,0,5113,2,
4770,0,5114,2,
4769,0,5115,2,
4763,0,5116,2,
4750,0,5117,2,
4776,0,5118,2,
4782,0,5119,2,
4774,0,5120,2,
4773,0,5121,2,
4784,0,5122,2,
4779,0,5123,2,
4780,0,5124,2,
4781,0,5125,2,
4794,0,5126,2,
4795,0,5127,2,
4789,0,5128,2,
4796,0,5129,2,
4793,0,5130,2,
4787,0,5131,2,
4792,0,5132,2,
4772,0,5133,2,
4791,0,5134,2,
4788,0,5135,2,
4790,0,5136,2,
4778,0,5137,2,
4775,0,5138,2,
4786,0,5139,2,
4804,0,5140,2,
4828,0,5141,2,
4825,0,5142,2,
4803,0,5143,2,
4798,0,5144,2,
4797,0,5145,2,
4799,0,5146,2,
4815,0,5147,2,
4814,0,5148,2,
4818,0,5149,2,
4819,0,5150,2,
4820,0,5151,2,
4822,0,5152,2,
5014,0,5153,2,
4823,0,5154,2,
5089,0,5155,2,
4829,0,5156,2,
4832,0,5157,2,
4824,0,5158,2,
4839,0,5159,2,
4826,0,5160,2,
4831,0,5161,2,
4817,0,5162,2,
4830,0,5163,2,
4833,0,5164,2,
4834,0,5165,2,
4821,4827,5166,0,
4813,0,5167,2,
4811,0,5168,2,
4807,0,5169,2,
4809,0,5170,2,
4836,0,5171,2,
4806,0,5172,2,
4810,0,5173,2,
4801,0,5174,2,
4812,0,5175,2,
4800,0,5176,2,
4897,0,5177,2,
4871,0,5178,2,
4851,0,5179,2,
4892,0,5180,2,
4852,0,5181,2,
4877,4842,5182,0,
4888,0,5183,2,
4869,0,5184,2,
4876,0,5185,2,
4898,0,5186,2,
4870,0,5187,2,
4860,0,5188,2,
4861,0,5189,2,
4885,4877,5190,0,
4894,0,5191,2,
4883,4858,5192,0,
4863,0,5193,2,
4862,0,5194,2,
4864,0,5195,2,
4889,0,5196,2,
4875,0,5197,2,
4893,0,5198,2,
4899,0,5199,2,
4865,0,5200,2,
4853,0,5201,2,
4895,0,5202,2,
4866,0,5203,2,
4840,0,5204,2,
4887,0,5205,2,
4896,0,5206,2,
4856,0,5207,2,
4847,0,5208,2,
4886,0,5209,2,
4850,0,5210,2,
4841,0,5211,2,
4884,0,5212,2,
4859,0,5213,2,
4857,0,5214,2,
4868,0,5215,2,
4854,0,5216,2,
4879,0,5217,2,
4882,0,5218,2,
4849,0,5219,2,
4872,0,5220,2,
4890,0,5221,2,
4867,0,5222,2,
4880,0,5223,2,
4878,0,5224,2,
4846,0,5225,2,
4844,0,5226,2,
4848,0,5227,2,
4845,0,5228,2,
5095,0,5229,2,
4918,0,5230,2,
4922,0,5231,2,
4910,0,5232,2,
4906,0,5233,2,
4905,4907,5234,0,
4901,0,5235,2,
4908,0,5236,2,
4903,0,5237,2,
4915,0,5238,2,
4933,0,5239,2,
4935,0,5240,2,
4923,0,5241,2,
4902,4827,5242,0,
4909,0,5243,2,
4916,4900,5244,0,
4931,0,5245,2,
4932,0,5246,2,
4914,0,5247,2,
4912,0,5248,2,
4917,0,5249,2,
4911,0,5250,2,
4929,0,5251,2,
4928,0,5252,2,
4940,0,5253,2,
4950,0,5254,2,
4959,4953,5255,0,
4937,0,5256,2,
4943,0,5257,2,
4958,0,5258,2,
4939,0,5259,2,
4837,4919,5260,0,
4938,4842,5261,0,
4957,0,5262,2,
4956,0,5263,2,
4948,0,5264,2,
4949,0,5265,2,
4944,0,5266,2,
4941,0,5267,2,
4952,0,5268,2,
4946,0,5269,2,
4936,0,5270,2,
4942,0,5271,2,
4955,0,5272,2,
4945,4891,5273,0,
4976,0,5274,2,
4967,0,5275,2,
4966,0,5276,2,
4965,0,5277,2,
4979,0,5278,2,
4947,4959,5279,0,
4982,0,5280,2,
4964,0,5281,2,
4970,0,5282,2,
4971,0,5283,2,
4963,0,5284,2,
4980,0,5285,2,
4961,0,5286,2,
4972,0,5287,2,
4983,0,5288,2,
4968,4973,5289,0,
4969,0,5290,2,
4989,0,5291,2,
4913,4960,5292,0,
4988,0,5293,2,
4954,4975,5294,0,
4954,4907,5295,0,
4997,0,5296,2,
4994,0,5297,2,
4996,0,5298,2,
4995,0,5299,2,
4993,4843,5300,0,
4998,0,5301,2,
4992,0,5302,2,
4984,4951,5303,0,
4785,4968,5304,0,
4881,4842,5305,0,
4999,0,5306,2,
4821,4838,5307,0,
4974,4968,5308,0,
4986,4891,5309,0,
4808,4993,5310,0,
4947,4977,5311,0,
4925,4975,5312,0,
4959,5000,5313,0,
4837,4973,5314,0,
4904,4930,5315,0,
4954,4805,5316,0,
5002,0,5317,2,
4954,4987,5318,0,
4913,4891,5319,0,
4885,4883,5320,0,
4891,5000,5321,0,
4805,4907,5322,0,
4767,4991,5323,0,
4920,4883,5324,0,
4925,4934,5325,0,
4873,4902,5326,0,
4767,4891,5327,0,
4938,4855,5328,0,
4990,4959,5329,0,
4907,4987,5330,0,
5004,4919,5331,0,
4785,4665,5332,0,
4985,4991,5333,0,
5006,5007,5334,0,
4930,4783,5335,0,
4913,4821,5336,0,
4973,4930,5337,0,
5000,4919,5338,0,
4838,5000,5339,0,
4921,4802,5340,0,
4802,4987,5341,0,
4934,4842,5342,0,
4947,4985,5343,0,
4991,4777,5344,0,
4984,4907,5345,0,
4891,4926,5346,0,
4748,4749,5347,0,
4585,4748,5348,0,
4858,4981,5349,0,
5010,5009,5350,0,
5011,0,5351,2,
5012,0,5352,2,
4835,4916,5353,0,
4927,4973,5354,0,
4927,4855,5355,0,
4938,4975,5356,0,
4891,4919,5357,0,
4767,4835,5358,0,
4978,4975,5359,0,
4977,4959,5360,0,
4974,4821,5361,0,
4905,4881,5362,0,
4968,4930,5363,0,
4945,4835,5364,0,
4916,4816,5365,0,
4925,4951,5366,0,
5016,4330,5367,1,
5015,4237,5368,1,
5017,4250,5369,1,
5018,4258,5370,1,
5019,4272,5371,1,
5020,4268,5372,1,
5018,0,5373,2,
5020,0,5374,2,
4253,5022,5375,0,
4250,5017,5376,0,
4272,5019,5377,0,
5021,0,5378,2,
4539,5029,5379,0,
5028,4357,5380,1,
5027,0,5381,2,
5026,0,5382,2,
5032,4284,5383,1,
4265,5025,5384,0,
5033,0,5385,2,
4444,5030,5386,0,
4330,5016,5387,0,
4694,5024,5388,1,
5015,0,5389,2,
4696,5023,5390,0,
5038,0,5391,2,
5035,4285,5392,1,
4706,5034,5393,1,
5037,0,5394,2,
5024,0,5395,2,
5039,0,5396,2,
4284,5032,5397,0,
5043,4248,5398,0,
4283,5045,5399,0,
5050,0,5400,2,
5049,0,5401,2,
4204,5040,5402,0,
5041,0,5403,2,
4550,5044,5404,0,
5042,4189,5405,0,
5028,0,5406,2,
5046,4366,5407,1,
5046,0,5408,2,
5052,0,5409,2,
5054,0,5410,2,
5053,0,5411,2,
5034,4706,5412,0,
5055,4368,5413,1,
5056,0,5414,2,
4455,5051,5415,0,
5061,0,5416,2,
5063,0,5417,2,
5062,0,5418,2,
5060,4186,5419,0,
5055,0,5420,2,
5057,0,5421,2,
4290,5058,5422,0,
5068,0,5423,2,
5035,0,5424,2,
5062,4459,5425,1,
5067,0,5426,2,
5066,0,5427,2,
5065,0,5428,2,
5066,5065,5429,1,
5037,4294,5430,1,
4359,5071,5431,0,
4369,5069,5432,0,
5070,0,5433,2,
5072,0,5434,2,
4558,5074,5435,0,
5075,4302,5436,0,
5076,4727,5437,0,
5077,0,5438,2,
4730,5079,5439,1,
5079,0,5440,2,
5081,4413,5441,0,
4953,4987,5442,0,
4920,4916,5443,0,
4968,4962,5444,0,
5082,0,5445,2,
4573,5083,5446,0,
5084,0,5447,2,
4576,5086,5448,0,
4926,4777,5449,0,
4877,4919,5450,0,
4837,4805,5451,0,
4991,4907,5452,0,
4858,4962,5453,0,
4938,4953,5454,0,
4855,4975,5455,0,
4960,4986,5456,0,
4945,4838,5457,0,
4974,4827,5458,0,
4743,5088,5459,0,
4916,4981,5460,0,
4835,4974,5461,0,
4920,4919,5462,0,
5090,4740,5463,0,
5091,4074,5464,1,
5094,4075,5465,1,
4785,4838,5466,0,
5090,5092,5467,1,
4072,5093,5468,1,
5468,31,5469,0,
4072,5469,5470,1,
4951,4981,5471,0,
4858,4987,5472,0,
4974,4916,5473,0,
5094,4098,5474,0,
4674,5012,5475,0,
5470,0,5476,2,
5100,5104,5477,0,
4767,5102,5478,0,
5103,5105,5479,0,
5097,5101,5480,0,
5099,5098,5481,0,
5114,5112,5482,0,
5116,5106,5483,0,
5111,5113,5484,0,
5117,4777,5485,0,
5107,5115,5486,0,
5109,4785,5487,0,
4837,5120,5488,0,
5118,5135,5489,0,
5138,5132,5490,0,
5137,5136,5491,0,
5129,4783,5492,0,
5134,5126,5493,0,
5125,4808,5494,0,
5109,5122,5495,0,
5130,5135,5496,0,
5121,5128,5497,0,
4802,5124,5498,0,
5139,5127,5499,0,
4835,5136,5500,0,
5133,4838,5501,0,
5123,4805,5502,0,
5173,5161,5503,0,
5170,5158,5504,0,
5142,4874,5505,0,
5160,5162,5506,0,
5152,5132,5507,0,
5153,5134,5508,0,
5145,5138,5509,0,
5138,5157,5510,0,
5172,4873,5511,0,
5134,4891,5512,0,
5125,4881,5513,0,
5149,5148,5514,0,
5164,5168,5515,0,
5151,5141,5516,0,
5140,5108,5517,0,
5167,5141,5518,0,
5169,5124,5519,0,
5143,4843,5520,0,
5139,5150,5521,0,
5175,5174,5522,0,
5160,5156,5523,0,
5166,5101,5524,0,
5148,5159,5525,0,
5155,5163,5526,0,
5198,5208,5527,0,
5227,5213,5528,0,
5201,5150,5529,0,
4913,5189,5530,0,
5219,5111,5531,0,
5224,5212,5532,0,
5111,5164,5533,0,
5181,5188,5534,0,
5195,5100,5535,0,
5203,4858,5536,0,
5202,5226,5537,0,
4925,5193,5538,0,
5157,5216,5539,0,
5130,5204,5540,0,
5149,4934,5541,0,
5169,4920,5542,0,
5202,5117,5543,0,
5110,4904,5544,0,
5114,5226,5545,0,
5184,5127,5546,0,
5170,5140,5547,0,
5186,5221,5548,0,
5210,5179,5549,0,
4905,5209,5550,0,
5106,5191,5551,0,
5223,5178,5552,0,
5187,5214,5553,0,
5186,4838,5554,0,
5182,5206,5555,0,
4930,5177,5556,0,
4927,5215,5557,0,
5174,4777,5558,0,
5222,5096,5559,0,
4873,5104,5560,0,
4767,5200,5561,0,
5211,5146,5562,0,
5152,5105,5563,0,
5205,5163,5564,0,
5228,5185,5565,0,
5096,5188,5566,0,
5245,5181,5567,0,
5140,5106,5568,0,
5218,4902,5569,0,
5232,5194,5570,0,
5236,5251,5571,0,
5238,5198,5572,0,
5175,5163,5573,0,
5201,5108,5574,0,
5242,4951,5575,0,
5241,4960,5576,0,
5247,5162,5577,0,
5102,5235,5578,0,
5237,5252,5579,0,
4947,5229,5580,0,
4934,5213,5581,0,
5248,4907,5582,0,
5238,4900,5583,0,
5243,5230,5584,0,
4874,5229,5585,0,
4954,5232,5586,0,
5193,5233,5587,0,
5251,5105,5588,0,
5263,5219,5589,0,
5237,4981,5590,0,
5212,5254,5591,0,
5152,5215,5592,0,
5156,4975,5593,0,
5151,5100,5594,0,
5145,5258,5595,0,
5229,5126,5596,0,
5205,5187,5597,0,
5170,4984,5598,0,
5248,5235,5599,0,
4902,5270,5600,0,
5154,5230,5601,0,
5172,5168,5602,0,
4802,5259,5603,0,
5271,4877,5604,0,
5272,5161,5605,0,
5241,4977,5606,0,
4921,5176,5607,0,
5270,5099,5608,0,
5207,5157,5609,0,
5155,5201,5610,0,
5271,5120,5611,0,
5176,5104,5612,0,
5260,5232,5613,0,
5143,5262,5614,0,
5271,4827,5615,0,
5253,5111,5616,0,
5189,5187,5617,0,
5174,5225,5618,0,
5264,4783,5619,0,
5110,4985,5620,0,
5167,5265,5621,0,
5203,5099,5622,0,
5271,5247,5623,0,
4978,5262,5624,0,
4945,5250,5625,0,
5269,5133,5626,0,
5145,4945,5627,0,
5206,4837,5628,0,
5253,4843,5629,0,
5175,5221,5630,0,
5199,5256,5631,0,
5195,4981,5632,0,
5287,5288,5633,0,
5287,5112,5634,0,
5241,4987,5635,0,
5284,4858,5636,0,
5097,5171,5637,0,
5268,5176,5638,0,
4874,5163,5639,0,
5228,4927,5640,0,
4838,5286,5641,0,
4855,5215,5642,0,
5246,5270,5643,0,
5123,5140,5644,0,
5286,5096,5645,0,
5223,5274,5646,0,
5254,5107,5647,0,
5211,4981,5648,0,
4802,5179,5649,0,
5281,5233,5650,0,
5258,5118,5651,0,
5112,5103,5652,0,
5254,5285,5653,0,
4938,5103,5654,0,
5163,5256,5655,0,
5280,5277,5656,0,
5172,5180,5657,0,
5132,4930,5658,0,
5278,4945,5659,0,
5204,5288,5660,0,
4805,5113,5661,0,
5280,4816,5662,0,
5269,5283,5663,0,
4904,5214,5664,0,
5167,5274,5665,0,
5118,4907,5666,0,
5200,4938,5667,0,
5198,5148,5668,0,
5282,5221,5669,0,
5246,4953,5670,0,
5158,4987,5671,0,
5240,4827,5672,0,
5270,5225,5673,0,
5231,4968,5674,0,
5223,4953,5675,0,
5278,4835,5676,0,
5256,4962,5677,0,
4962,5158,5678,0,
5212,5219,5679,0,
4767,5116,5680,0,
4904,5252,5681,0,
5145,5205,5682,0,
5210,5276,5683,0,
5208,5235,5684,0,
5292,4808,5685,0,
5144,5224,5686,0,
5210,5184,5687,0,
5124,4973,5688,0,
5186,4977,5689,0,
5198,5237,5690,0,
5195,5129,5691,0,
5227,5251,5692,0,
5131,5253,5693,0,
5160,4991,5694,0,
5204,5245,5695,0,
5212,5173,5696,0,
5291,4962,5697,0,
5207,5266,5698,0,
4930,5219,5699,0,
5112,5106,5700,0,
5110,5123,5701,0,
5170,4802,5702,0,
5197,5128,5703,0,
5144,5230,5704,0,
5248,5247,5705,0,
5167,4960,5706,0,
4919,5225,5707,0,
5123,5124,5708,0,
5281,4925,5709,0,
4920,5249,5710,0,
5165,5137,5711,0,
5239,4951,5712,0,
4925,5270,5713,0,
4974,5271,5714,0,
5239,5124,5715,0,
5238,5142,5716,0,
5200,4987,5717,0,
4968,5225,5718,0,
4978,5150,5719,0,
5293,5155,5720,0,
5270,4891,5721,0,
5200,4924,5722,0,
5176,5108,5723,0,
5265,5194,5724,0,
4938,5274,5725,0,
5102,5136,5726,0,
4916,5256,5727,0,
5139,5215,5728,0,
5097,5299,5729,0,
4885,5142,5730,0,
5119,5233,5731,0,
5257,5178,5732,0,
5107,4991,5733,0,
5194,5179,5734,0,
5131,5130,5735,0,
5206,5199,5736,0,
5159,5146,5737,0,
5206,5141,5738,0,
5111,4993,5739,0,
5297,5301,5740,0,
5280,4953,5741,0,
5140,5301,5742,0,
5143,5264,5743,0,
5144,4874,5744,0,
5278,5173,5745,0,
5266,5150,5746,0,
4925,5126,5747,0,
5254,4984,5748,0,
4974,5235,5749,0,
4913,5199,5750,0,
5152,5138,5751,0,
5169,5298,5752,0,
5210,5285,5753,0,
5139,5251,5754,0,
5203,5127,5755,0,
5187,5132,5756,0,
5183,5220,5757,0,
5189,4816,5758,0,
5126,5179,5759,0,
5098,4930,5760,0,
4842,5299,5761,0,
5266,5217,5762,0,
5296,5000,5763,0,
5186,5177,5764,0,
5172,5135,5765,0,
5193,5284,5766,0,
4925,5147,5767,0,
5205,5186,5768,0,
5181,5111,5769,0,
5259,5106,5770,0,
5308,5286,5771,0,
5195,4987,5772,0,
5296,5150,5773,0,
5224,5197,5774,0,
5130,4959,5775,0,
5251,5290,5776,0,
5175,4877,5777,0,
5288,5252,5778,0,
4921,5277,5779,0,
5278,4960,5780,0,
5282,5193,5781,0,
4916,5115,5782,0,
5210,5098,5783,0,
5181,5298,5784,0,
5247,5161,5785,0,
5189,4883,5786,0,
5281,4991,5787,0,
5264,5248,5788,0,
5266,5302,5789,0,
4927,5104,5790,0,
5247,4953,5791,0,
4881,5113,5792,0,
4785,5101,5793,0,
5187,5179,5794,0,
5240,4916,5795,0,
5257,5222,5796,0,
5202,5250,5797,0,
5298,5215,5798,0,
5101,5277,5799,0,
5142,5284,5800,0,
4855,5156,5801,0,
5257,5204,5802,0,
5147,5214,5803,0,
5187,4984,5804,0,
5116,5141,5805,0,
5272,5122,5806,0,
5223,5201,5807,0,
5129,4842,5808,0,
5153,5100,5809,0,
5107,4837,5810,0,
5309,5224,5811,0,
5129,4904,5812,0,
5310,4838,5813,0,
5208,5246,5814,0,
5198,5233,5815,0,
5224,5222,5816,0,
5143,5272,5817,0,
5173,4900,5818,0,
5229,5298,5819,0,
5305,5221,5820,0,
5153,5299,5821,0,
5151,4953,5822,0,
5238,5259,5823,0,
5268,4767,5824,0,
5208,5168,5825,0,
5125,4785,5826,0,
5238,5133,5827,0,
5180,5221,5828,0,
5118,4919,5829,0,
5096,4926,5830,0,
5189,5099,5831,0,
5241,5139,5832,0,
4873,5301,5833,0,
5164,5285,5834,0,
4816,5096,5835,0,
5290,5274,5836,0,
5134,5175,5837,0,
4920,5220,5838,0,
5212,5122,5839,0,
4927,5171,5840,0,
5245,5236,5841,0,
5169,5262,5842,0,
5265,5179,5843,0,
5125,4835,5844,0,
5103,5188,5845,0,
5287,5201,5846,0,
5183,4821,5847,0,
4947,5283,5848,0,
5241,4954,5849,0,
5239,4987,5850,0,
5227,5247,5851,0,
5291,5228,5852,0,
5110,5298,5853,0,
5222,4954,5854,0,
5301,4985,5855,0,
5123,5280,5856,0,
5144,5288,5857,0,
5145,4974,5858,0,
5119,5103,5859,0,
5297,5127,5860,0,
5099,5265,5861,0,
5199,4985,5862,0,
4945,5183,5863,0,
5099,5188,5864,0,
5315,5148,5865,0,
5184,4874,5866,0,
5150,5159,5867,0,
5269,4885,5868,0,
5230,5286,5869,0,
5142,5124,5870,0,
5113,5317,5871,0,
4938,5119,5872,0,
4921,5230,5873,0,
5142,5218,5874,0,
5146,5185,5875,0,
4821,5226,5876,0,
4926,5162,5877,0,
5180,4981,5878,0,
5305,5115,5879,0,
5139,5272,5880,0,
5258,5127,5881,0,
5188,5235,5882,0,
5293,5277,5883,0,
5121,5101,5884,0,
4920,5099,5885,0,
5319,5131,5886,0,
4991,5274,5887,0,
5222,5101,5888,0,
5131,4913,5889,0,
5217,5237,5890,0,
5320,5167,5891,0,
5160,5126,5892,0,
5283,4930,5893,0,
4905,5287,5894,0,
4959,5306,5895,0,
4986,5162,5896,0,
5217,5000,5897,0,
5099,4881,5898,0,
5207,5128,5899,0,
5243,5123,5900,0,
4947,5222,5901,0,
4951,5136,5902,0,
5115,4900,5903,0,
5287,4986,5904,0,
4977,5263,5905,0,
5152,4907,5906,0,
5254,5104,5907,0,
5194,5132,5908,0,
5250,5128,5909,0,
4990,5262,5910,0,
5322,5108,5911,0,
5206,5189,5912,0,
5149,4951,5913,0,
5145,5127,5914,0,
5134,5181,5915,0,
5192,5213,5916,0,
4904,5219,5917,0,
5146,4805,5918,0,
4986,5214,5919,0,
5147,5156,5920,0,
4805,5105,5921,0,
4954,5187,5922,0,
5222,5302,5923,0,
5202,5178,5924,0,
5231,5185,5925,0,
5272,4777,5926,0,
5160,5297,5927,0,
5268,4900,5928,0,
5119,5161,5929,0,
5103,4981,5930,0,
5176,5168,5931,0,
5137,5259,5932,0,
5139,5228,5933,0,
5169,5191,5934,0,
5209,5285,5935,0,
4821,5235,5936,0,
5205,5235,5937,0,
5181,4973,5938,0,
5238,5097,5939,0,
5299,4858,5940,0,
4885,5129,5941,0,
5296,5153,5942,0,
5133,5135,5943,0,
4945,5117,5944,0,
5186,5257,5945,0,
5151,5165,5946,0,
5199,5266,5947,0,
4974,5317,5948,0,
5198,4777,5949,0,
5232,4891,5950,0,
4921,5131,5951,0,
5275,5193,5952,0,
4802,5211,5953,0,
4877,5284,5954,0,
5144,5175,5955,0,
5207,4816,5956,0,
5149,5119,5957,0,
5271,4837,5958,0,
5249,5100,5959,0,
5268,5296,5960,0,
5224,5173,5961,0,
4990,5148,5962,0,
4802,5107,5963,0,
5223,5147,5964,0,
5326,5283,5965,0,
5184,5299,5966,0,
5253,5167,5967,0,
5109,5302,5968,0,
5134,5270,5969,0,
5160,5180,5970,0,
4960,5199,5971,0,
5236,5230,5972,0,
5291,5249,5973,0,
5150,5251,5974,0,
5142,5171,5975,0,
5207,5183,5976,0,
5139,5159,5977,0,
5203,5124,5978,0,
5003,5117,5979,0,
5213,4984,5980,0,
5188,5158,5981,0,
5109,5288,5982,0,
4924,5132,5983,0,
4904,5194,5984,0,
5108,4783,5985,0,
5272,5179,5986,0,
5102,5280,5987,0,
5154,5199,5988,0,
5155,5126,5989,0,
5130,5222,5990,0,
5252,5164,5991,0,
5206,5266,5992,0,
5097,4877,5993,0,
5218,5276,5994,0,
5282,4885,5995,0,
5113,5120,5996,0,
5165,5128,5997,0,
5328,5208,5998,0,
5205,5191,5999,0,
5173,5000,6000,0,
5173,5158,6001,0,
5152,5161,6002,0,
5145,5219,6003,0,
5223,4986,6004,0,
5281,5265,6005,0,
5211,5156,6006,0,
5243,4974,6007,0,
5269,5178,6008,0,
5169,5293,6009,0,
5264,5235,6010,0,
5137,5298,6011,0,
5278,5144,6012,0,
5192,5175,6013,0,
5257,5231,6014,0,
5250,5188,6015,0,
5247,4805,6016,0,
5238,5264,6017,0,
5158,5104,6018,0,
5138,5213,6019,0,
5217,4891,6020,0,
5138,4951,6021,0,
4785,5165,6022,0,
5239,4938,6023,0,
5208,5161,6024,0,
5297,4930,6025,0,
5152,4975,6026,0,
5109,4962,6027,0,
5107,4900,6028,0,
5189,5267,6029,0,
4885,5191,6030,0,
5245,5215,6031,0,
5149,5214,6032,0,
5212,4783,6033,0,
5306,5263,6034,0,
5246,5132,6035,0,
5143,4926,6036,0,
5119,5108,6037,0,
5274,5126,6038,0,
4977,5131,6039,0,
5258,5128,6040,0,
4920,5130,6041,0,
5176,5105,6042,0,
4981,5285,6043,0,
5203,5259,6044,0,
5147,5196,6045,0,
5195,4986,6046,0,
5205,5118,6047,0,
5283,5220,6048,0,
5155,5106,6049,0,
5187,5103,6050,0,
5121,5136,6051,0,
5333,5262,6052,0,
5233,5122,6053,0,
5151,4993,6054,0,
4843,5317,6055,0,
5253,5173,6056,0,
5288,5162,6057,0,
5209,4907,6058,0,
5210,4921,6059,0,
5110,5140,6060,0,
4905,5197,6061,0,
5152,4777,6062,0,
5334,0,6063,2,
5223,5230,6064,0,
4905,5164,6065,0,
5115,5245,6066,0,
5169,5209,6067,0,
4974,5114,6068,0,
5248,4855,6069,0,
5254,4975,6070,0,
5154,5211,6071,0,
5180,5284,6072,0,
5278,5269,6073,0,
5243,5271,6074,0,
4881,5233,6075,0,
5154,5121,6076,0,
5272,4926,6077,0,
5268,5120,6078,0,
5229,5128,6079,0,
5154,5127,6080,0,
5252,5122,6081,0,
4916,5262,6082,0,
4874,5232,6083,0,
5121,5196,6084,0,
5282,5132,6085,0,
4960,5147,6086,0,
5286,5163,6087,0,
5157,5209,6088,0,
4934,5122,6089,0,
5149,4978,6090,0,
5173,4835,6091,0,
5206,4900,6092,0,
5119,5098,6093,0,
5335,4927,6094,0,
5256,5137,6095,0,
5275,4802,6096,0,
4921,5140,6097,0,
5151,5163,6098,0,
5203,5196,6099,0,
5223,4816,6100,0,
5142,4907,6101,0,
5287,5099,6102,0,
5199,5188,6103,0,
5109,5216,6104,0,
5176,5136,6105,0,
5189,4808,6106,0,
5107,5221,6107,0,
5269,5118,6108,0,
5150,4827,6109,0,
5237,5176,6110,0,
5258,5154,6111,0,
4837,5226,6112,0,
5163,5096,6113,0,
5207,4843,6114,0,
5161,5103,6115,0,
5144,5169,6116,0,
5206,4960,6117,0,
5235,5317,6118,0,
5278,5204,6119,0,
4816,5171,6120,0,
5098,4959,6121,0,
4990,5214,6122,0,
5202,4902,6123,0,
5299,5132,6124,0,
5269,5282,6125,0,
5336,5186,6126,0,
4873,5228,6127,0,
5156,5214,6128,0,
5145,5184,6129,0,
5147,4968,6130,0,
5263,5267,6131,0,
5118,5252,6132,0,
5197,5141,6133,0,
5134,4984,6134,0,
5224,4881,6135,0,
5188,5185,6136,0,
5151,5283,6137,0,
5159,5136,6138,0,
5216,5285,6139,0,
5224,5135,6140,0,
5152,4986,6141,0,
5120,4900,6142,0,
4835,5297,6143,0,
5201,5298,6144,0,
5228,4951,6145,0,
5170,5127,6146,0,
5210,5264,6147,0,
5291,5106,6148,0,
5195,5281,6149,0,
5266,5226,6150,0,
5220,4959,6151,0,
5227,5241,6152,0,
5246,5191,6153,0,
5097,5178,6154,0,
5170,5211,6155,0,
5229,5251,6156,0,
5302,5168,6157,0,
5253,5257,6158,0,
4934,5126,6159,0,
4808,5267,6160,0,
5280,5230,6161,0,
5177,5122,6162,0,
5125,4913,6163,0,
5143,4962,6164,0,
5342,5263,6165,0,
4885,5237,6166,0,
5139,5177,6167,0,
4985,5302,6168,0,
4986,5105,6169,0,
5196,5285,6170,0,
5161,5233,6171,0,
4827,5185,6172,0,
5136,4900,6173,0,
5171,5104,6174,0,
5214,5162,6175,0,
5140,5112,6176,0,
5180,4968,6177,0,
4977,5209,6178,0,
5184,5259,6179,0,
4858,5158,6180,0,
4885,5271,6181,0,
4954,5150,6182,0,
5118,5098,6183,0,
5200,5105,6184,0,
4905,5111,6185,0,
5124,5196,6186,0,
5213,5159,6187,0,
5103,5225,6188,0,
5269,5270,6189,0,
4953,5235,6190,0,
5203,4951,6191,0,
5286,5298,6192,0,
4934,5221,6193,0,
5119,5290,6194,0,
5207,5175,6195,0,
5251,5176,6196,0,
5258,5121,6197,0,
4978,5194,6198,0,
5239,5281,6199,0,
5125,5286,6200,0,
5344,5268,6201,0,
5131,5141,6202,0,
5268,5118,6203,0,
5245,5165,6204,0,
5210,4945,6205,0,
5119,5248,6206,0,
5333,5252,6207,0,
5202,5096,6208,0,
5134,5163,6209,0,
5272,5146,6210,0,
4904,5274,6211,0,
5102,5277,6212,0,
4816,5216,6213,0,
4835,5201,6214,0,
5129,5177,6215,0,
5125,5000,6216,0,
5345,4954,6217,0,
5126,5285,6218,0,
5269,4986,6219,0,
5109,4924,6220,0,
5221,5156,6221,0,
5102,5259,6222,0,
5278,5229,6223,0,
5147,4927,6224,0,
5239,4962,6225,0,
5284,4981,6226,0,
5241,5171,6227,0,
5230,5317,6228,0,
5170,5103,6229,0,
4891,5226,6230,0,
5227,4934,6231,0,
5282,5214,6232,0,
5134,5231,6233,0,
5348,0,6234,2,
5347,0,6235,2,
5110,5275,6236,0,
5222,5237,6237,0,
5211,5157,6238,0,
5153,5107,6239,0,
5178,4881,6240,0,
5346,5181,6241,0,
5218,5176,6242,0,
4945,5275,6243,0,
5131,4808,6244,0,
4925,5194,6245,0,
5154,5298,6246,0,
5200,5138,6247,0,
5164,5185,6248,0,
5349,5100,6249,0,
5139,5121,6250,0,
5246,4900,6251,0,
4874,5113,6252,0,
5269,5240,6253,0,
4974,5266,6254,0,
5141,5232,6255,0,
5278,5262,6256,0,
4977,5267,6257,0,
5197,5250,6258,0,
5224,5209,6259,0,
5167,4959,6260,0,
5199,5217,6261,0,
5350,0,6262,2,
5116,5136,6263,0,
5127,5191,6264,0,
5180,5288,6265,0,
5154,5246,6266,0,
4802,5185,6267,0,
5189,5181,6268,0,
5236,5096,6269,0,
5186,5204,6270,0,
5114,5135,6271,0,
5216,4968,6272,0,
5280,4842,6273,0,
5203,5105,6274,0,
5199,5113,6275,0,
5107,5104,6276,0,
4926,5259,6277,0,
4674,5352,6278,0,
4874,5270,6279,0,
5240,5231,6280,0,
5150,5111,6281,0,
5140,5201,6282,0,
4907,5117,6283,0,
4905,5135,6284,0,
5193,5148,6285,0,
5123,4987,6286,0,
5170,4990,6287,0,
4945,5163,6288,0,
5203,5290,6289,0,
5173,5225,6290,0,
5204,4993,6291,0,
5098,4777,6292,0,
5354,4981,6293,0,
5258,5096,6294,0,
5475,4749,6295,0,
5114,4975,6296,0,
5293,5137,6297,0,
4951,5237,6298,0,
5170,5162,6299,0,
5297,5156,6300,0,
5144,5243,6301,0,
5210,5293,6302,0,
5165,5136,6303,0,
5125,5240,6304,0,
5296,5200,6305,0,
5097,5148,6306,0,
5121,5285,6307,0,
5167,5181,6308,0,
4785,5306,6309,0,
5133,5228,6310,0,
5288,5104,6311,0,
5115,4985,6312,0,
5256,4930,6313,0,
5248,5101,6314,0,
5129,5285,6315,0,
5203,5142,6316,0,
5147,5256,6317,0,
4877,5317,6318,0,
5243,5113,6319,0,
5134,5232,6320,0,
5155,5137,6321,0,
5275,4843,6322,0,
5205,5135,6323,0,
5186,4835,6324,0,
4785,5116,6325,0,
5169,4902,6326,0,
4921,5237,6327,0,
5268,5100,6328,0,
5276,4808,6329,0,
5121,5277,6330,0,
5204,5286,6331,0,
4938,5187,6332,0,
5245,5267,6333,0,
5218,4907,6334,0,
5160,4926,6335,0,
5243,5317,6336,0,
5180,5119,6337,0,
5172,5122,6338,0,
5173,5299,6339,0,
5252,5191,6340,0,
5258,4805,6341,0,
5197,5226,6342,0,
5282,5194,6343,0,
5111,5188,6344,0,
5110,4984,6345,0,
5128,4959,6346,0,
5184,5217,6347,0,
5133,5217,6348,0,
5293,4924,6349,0,
5276,5159,6350,0,
4913,5165,6351,0,
5296,5179,6352,0,
5243,5218,6353,0,
5241,5161,6354,0,
5212,5180,6355,0,
5141,5137,6356,0,
5198,5000,6357,0,
5284,5174,6358,0,
5110,5184,6359,0,
5140,5267,6360,0,
5102,5290,6361,0,
5281,5254,6362,0,
5141,5250,6363,0,
5145,5243,6364,0,
5148,5185,6365,0,
5283,5128,6366,0,
4978,5286,6367,0,
5258,5281,6368,0,
4954,5265,6369,0,
5228,5221,6370,0,
5112,5187,6371,0,
5163,4843,6372,0,
4916,5208,6373,0,
5291,5235,6374,0,
5290,4805,6375,0,
5139,4938,6376,0,
5121,5108,6377,0,
4975,5132,6378,0,
5251,5126,6379,0,
5262,5158,6380,0,
5102,4902,6381,0,
5297,5211,6382,0,
4885,5231,6383,0,
5293,4873,6384,0,
4905,5229,6385,0,
4924,5254,6386,0,
5185,5171,6387,0,
5275,5207,6388,0,
4874,5117,6389,0,
5296,4783,6390,0,
4945,5290,6391,0,
5111,4827,6392,0,
5293,5280,6393,0,
5208,5146,6394,0,
5223,4919,6395,0,
5116,4959,6396,0,
5474,4099,6397,0,
5249,5219,6398,0,
5213,5274,6399,0,
5368,4247,6400,1,
5367,4333,6401,1,
5369,4257,6402,1,
5370,0,6403,2,
4333,5367,6404,0,
5372,4274,6405,1,
4257,5369,6406,0,
4258,5373,6407,0,
4273,5371,6408,0,
4268,5374,6409,0,
5376,0,6410,2,
5377,0,6411,2,
5375,0,6412,2,
5031,5378,6413,0,
5386,0,6414,2,
5382,5036,6415,0,
5384,0,6416,2,
4546,5381,6417,0,
5371,4273,6418,1,
5380,0,6419,2,
5387,0,6420,2,
5383,4288,6421,1,
5380,4547,6422,1,
5389,4169,6423,0,
5390,0,6424,2,
5379,0,6425,2,
5388,0,6426,2,
5368,0,6427,2,
4294,5394,6428,0,
5372,0,6429,2,
5370,4295,6430,1,
4694,5395,6431,0,
5397,0,6432,2,
5048,5396,6433,0,
5378,4683,6434,0,
4288,5383,6435,0,
5392,4293,6436,1,
5404,0,6437,2,
5402,0,6438,2,
5405,4193,6439,0,
4453,5403,6440,0,
5407,4556,6441,1,
5398,0,6442,2,
5399,0,6443,2,
4357,5406,6444,0,
5415,5063,6445,1,
4559,5411,6446,0,
5415,0,6447,2,
5393,0,6448,2,
4366,5408,6449,0,
5059,5409,6450,0,
5413,0,6451,2,
5407,0,6452,2,
5412,0,6453,2,
5422,0,6454,2,
4368,5420,6455,0,
5419,4413,6456,0,
5392,0,6457,2,
5418,4177,6458,0,
5388,5047,6459,1,
4285,5424,6460,0,
5425,4563,6461,1,
5426,5423,6462,1,
5427,5428,6463,0,
5431,0,6464,2,
5432,0,6465,2,
5430,4371,6466,1,
4564,5434,6467,0,
5425,0,6468,2,
5430,0,6469,2,
5426,5423,6470,0,
5435,0,6471,2,
5436,0,6472,2,
5437,0,6473,2,
5139,5156,6474,0,
5080,5440,6475,0,
5270,5171,6476,0,
5097,4900,6477,0,
5441,0,6478,2,
5180,4978,6479,0,
4990,5280,6480,0,
5212,4905,6481,0,
5205,5257,6482,0,
5119,4930,6483,0,
4986,5225,6484,0,
5121,5208,6485,0,
5258,5175,6486,0,
4891,5317,6487,0,
5283,4993,6488,0,
4921,5272,6489,0,
5172,4924,6490,0,
5098,5185,6491,0,
5282,4855,6492,0,
5173,5286,6493,0,
5207,5101,6494,0,
5202,5136,6495,0,
4985,5298,6496,0,
5227,5103,6497,0,
5269,5265,6498,0,
5250,5235,6499,0,
5121,5237,6500,0,
5133,5112,6501,0,
5133,5299,6502,0,
5153,5168,6503,0,
4947,5208,6504,0,
5189,5263,6505,0,
5293,5218,6506,0,
5324,5276,6507,0,
5172,5213,6508,0,
5262,5290,6509,0,
5222,5317,6510,0,
4951,5299,6511,0,
5262,4783,6512,0,
4842,5290,6513,0,
4873,5159,6514,0,
5143,5168,6515,0,
5107,5247,6516,0,
5282,5217,6517,0,
5227,5114,6518,0,
5114,4837,6519,0,
5196,5162,6520,0,
5193,5180,6521,0,
5170,5150,6522,0,
5212,5276,6523,0,
5155,5213,6524,0,
5227,4907,6525,0,
4985,5277,6526,0,
5255,5122,6527,0,
5247,5265,6528,0,
5157,5105,6529,0,
5153,5171,6530,0,
5446,0,6531,2,
5224,5264,6532,0,
5447,4735,6533,1,
5096,5219,6534,0,
5281,5149,6535,0,
4785,5250,6536,0,
5287,5111,6537,0,
4954,5157,6538,0,
5447,4735,6539,0,
5216,5159,6540,0,
5115,5226,6541,0,
4947,5128,6542,0,
5140,4777,6543,0,
5314,4783,6544,0,
5249,4902,6545,0,
5173,5197,6546,0,
5181,5209,6547,0,
5240,5165,6548,0,
5154,5159,6549,0,
5271,5219,6550,0,
5175,5236,6551,0,
5448,0,6552,2,
5179,5285,6553,0,
5288,5168,6554,0,
5203,5132,6555,0,
4905,5232,6556,0,
5184,4827,6557,0,
5449,5266,6558,0,
5208,5096,6559,0,
5114,4991,6560,0,
5206,5270,6561,0,
5142,5251,6562,0,
5298,5136,6563,0,
5269,5233,6564,0,
5124,5284,6565,0,
5207,5120,6566,0,
5187,5177,6567,0,
4960,5137,6568,0,
5280,4877,6569,0,
5284,5105,6570,0,
5241,4973,6571,0,
5143,5193,6572,0,
5218,5298,6573,0,
5175,5217,6574,0,
5169,5178,6575,0,
4947,5226,6576,0,
4835,5099,6577,0,
5160,4973,6578,0,
5198,5271,6579,0,
5196,5191,6580,0,
5257,5105,6581,0,
4881,5267,6582,0,
5218,4993,6583,0,
4925,5124,6584,0,
4855,5259,6585,0,
5216,5213,6586,0,
5207,5099,6587,0,
5451,5224,6588,0,
5177,5158,6589,0,
5163,5306,6590,0,
5107,4842,6591,0,
4816,5120,6592,0,
5452,5238,6593,0,
5195,4927,6594,0,
5165,5187,6595,0,
5112,5231,6596,0,
4835,5113,6597,0,
5269,5168,6598,0,
5193,5214,6599,0,
5183,4953,6600,0,
5247,5215,6601,0,
5197,5266,6602,0,
5124,5191,6603,0,
5152,5218,6604,0,
5163,5298,6605,0,
5293,5317,6606,0,
5272,5105,6607,0,
5128,4900,6608,0,
5115,4816,6609,0,
4954,5194,6610,0,
5228,5274,6611,0,
4960,5235,6612,0,
5247,4777,6613,0,
5099,4821,6614,0,
5282,5271,6615,0,
5291,5101,6616,0,
4945,5106,6617,0,
5164,5214,6618,0,
4855,5158,6619,0,
5170,5152,6620,0,
4945,5181,6621,0,
4921,5143,6622,0,
5189,5148,6623,0,
5211,5177,6624,0,
4951,5233,6625,0,
5153,5132,6626,0,
5223,5141,6627,0,
5246,5280,6628,0,
5296,5254,6629,0,
4916,5249,6630,0,
5243,5108,6631,0,
5197,5171,6632,0,
5172,5221,6633,0,
5184,5187,6634,0,
5186,5291,6635,0,
5283,5263,6636,0,
5116,5266,6637,0,
5227,5159,6638,0,
5239,5104,6639,0,
5156,5285,6640,0,
5206,5209,6641,0,
5280,5111,6642,0,
5269,5228,6643,0,
5231,4907,6644,0,
5223,4891,6645,0,
5121,4919,6646,0,
5275,4926,6647,0,
5256,5164,6648,0,
5254,5290,6649,0,
4885,5276,6650,0,
5138,4805,6651,0,
5204,5271,6652,0,
5302,5132,6653,0,
5284,5146,6654,0,
5169,4816,6655,0,
5140,5298,6656,0,
5151,4919,6657,0,
5275,5189,6658,0,
5197,5101,6659,0,
5110,5143,6660,0,
5099,5236,6661,0,
5100,4877,6662,0,
5124,4858,6663,0,
5269,5107,6664,0,
5293,5178,6665,0,
5282,5104,6666,0,
4873,5211,6667,0,
5116,5217,6668,0,
5172,5162,6669,0,
5272,4973,6670,0,
4802,5276,6671,0,
4984,5179,6672,0,
5123,5115,6673,0,
5130,5102,6674,0,
5164,5104,6675,0,
5114,5265,6676,0,
5173,5183,6677,0,
5459,0,6678,2,
4580,5470,6679,0,
4885,5108,6680,0,
5151,4960,6681,0,
5291,5135,6682,0,
5247,5105,6683,0,
5170,5206,6684,0,
5181,4919,6685,0,
4934,5164,6686,0,
5120,5185,6687,0,
5210,5128,6688,0,
5157,5117,6689,0,
5142,5228,6690,0,
5170,5119,6691,0,
5123,5219,6692,0,
4934,5262,6693,0,
5116,5236,6694,0,
5145,4902,6695,0,
5097,5297,6696,0,
5249,5106,6697,0,
5301,5158,6698,0,
5281,5138,6699,0,
5115,4973,6700,0,
5183,5113,6701,0,
5195,5251,6702,0,
5144,5276,6703,0,
5462,5224,6704,0,
5157,5277,6705,0,
5140,5162,6706,0,
5223,5197,6707,0,
5169,4954,6708,0,
4785,5220,6709,0,
5145,4993,6710,0,
4877,5299,6711,0,
5268,5139,6712,0,
4924,5129,6713,0,
4816,5101,6714,0,
5257,4808,6715,0,
4938,5248,6716,0,
5238,5299,6717,0,
5463,4299,6718,0,
5464,0,6719,2,
5188,5136,6720,0,
5169,5221,6721,0,
5202,5232,6722,0,
5110,5206,6723,0,
5148,5168,6724,0,
5474,4076,6725,1,
4096,5467,6726,1,
6726,31,6727,0,
4096,6727,6728,1,
5231,5187,6729,0,
5212,5282,6730,0,
5194,4930,6731,0,
4835,5263,6732,0,
5097,5157,6733,0,
5118,5171,6734,0,
5153,4777,6735,0,
5200,5171,6736,0,
5200,5203,6737,0,
5153,5117,6738,0,
4837,5229,6739,0,
5385,6412,6740,0,
5480,4783,6741,0,
5477,5108,6742,0,
5478,5481,6743,0,
5479,5110,6744,0,
5487,5133,6745,0,
5486,4816,6746,0,
5484,5485,6747,0,
5483,5131,6748,0,
5493,5144,6749,0,
5501,4855,6750,0,
5496,5494,6751,0,
5495,5146,6752,0,
5492,5154,6753,0,
5497,5171,6754,0,
5490,5117,6755,0,
5502,5176,6756,0,
5489,5165,6757,0,
5512,5513,6758,0,
5526,5517,6759,0,
5523,5157,6760,0,
5520,5220,6761,0,
5525,5515,6762,0,
5516,5183,6763,0,
5519,4919,6764,0,
5514,5098,6765,0,
5522,5199,6766,0,
5506,4926,6767,0,
5504,5194,6768,0,
5511,5508,6769,0,
5521,4900,6770,0,
5510,5218,6771,0,
5505,5197,6772,0,
5503,5507,6773,0,
5509,5217,6774,0,
5529,5250,6775,0,
5558,5244,6776,0,
5559,5159,6777,0,
5547,5240,6778,0,
5549,5245,6779,0,
5542,5113,6780,0,
5546,5544,6781,0,
5535,5249,6782,0,
5564,4883,6783,0,
5560,5239,6784,0,
5563,5115,6785,0,
5565,5231,6786,0,
5538,5231,6787,0,
5533,4900,6788,0,
5562,5550,6789,0,
5556,5179,6790,0,
5557,5153,6791,0,
5552,5116,6792,0,
5555,5554,6793,0,
5561,5540,6794,0,
5550,5543,6795,0,
5527,5246,6796,0,
5534,5531,6797,0,
5585,5267,6798,0,
5572,5156,6799,0,
5582,5268,6800,0,
5568,4974,6801,0,
5583,5584,6802,0,
5577,4883,6803,0,
5255,5570,6804,0,
5574,4926,6805,0,
5581,5579,6806,0,
5575,5240,6807,0,
5567,5257,6808,0,
5573,5261,6809,0,
5569,5266,6810,0,
5631,5625,6811,0,
5615,5217,6812,0,
5608,5263,6813,0,
5613,5279,6814,0,
5623,5616,6815,0,
5612,5133,6816,0,
5597,5606,6817,0,
5595,5196,6818,0,
5622,4919,6819,0,
5600,5155,6820,0,
5618,5228,6821,0,
5607,5169,6822,0,
5589,5196,6823,0,
5590,5141,6824,0,
5617,5629,6825,0,
5603,5610,6826,0,
5602,5237,6827,0,
5592,5276,6828,0,
5630,5129,6829,0,
5627,5286,6830,0,
5619,4990,6831,0,
5594,5275,6832,0,
5609,4975,6833,0,
5605,4986,6834,0,
5624,5289,6835,0,
5628,4927,6836,0,
5591,5256,6837,0,
5640,5174,6838,0,
5646,5267,6839,0,
5540,5241,6840,0,
5668,5208,6841,0,
5663,5275,6842,0,
5634,4960,6843,0,
5633,5115,6844,0,
5659,5253,6845,0,
5638,5639,6846,0,
5647,5140,6847,0,
5654,5650,6848,0,
5655,5641,6849,0,
5643,5165,6850,0,
5294,5670,6851,0,
5660,5229,6852,0,
5664,5665,6853,0,
5632,5252,6854,0,
5637,5240,6855,0,
5635,5636,6856,0,
5662,5165,6857,0,
5666,4913,6858,0,
5649,5117,6859,0,
5669,5671,6860,0,
5656,5286,6861,0,
5653,5652,6862,0,
5651,4843,6863,0,
5661,5250,6864,0,
5657,4816,6865,0,
6662,5283,6866,0,
5715,5268,6867,0,
5678,5288,6868,0,
5720,5680,6869,0,
5502,5711,6870,0,
5689,5097,6871,0,
5698,5697,6872,0,
5694,5693,6873,0,
5545,5692,6874,0,
5709,4843,6875,0,
5707,5213,6876,0,
5525,5722,6877,0,
5545,5589,6878,0,
5721,5125,6879,0,
5702,5701,6880,0,
5714,5280,6881,0,
5696,5300,6882,0,
5710,5706,6883,0,
5719,4907,6884,0,
5717,5700,6885,0,
5708,5243,6886,0,
5712,5297,6887,0,
5295,5684,6888,0,
5688,5687,6889,0,
5677,5138,6890,0,
5674,5682,6891,0,
5672,5217,6892,0,
5699,5148,6893,0,
5679,5686,6894,0,
5681,4926,6895,0,
5718,5168,6896,0,
5733,5303,6897,0,
5763,5762,6898,0,
5746,5745,6899,0,
5729,5178,6900,0,
5757,5735,6901,0,
5740,5743,6902,0,
5725,5102,6903,0,
5753,5738,6904,0,
5760,5271,6905,0,
5736,5253,6906,0,
5761,5184,6907,0,
5742,5184,6908,0,
5759,4975,6909,0,
5749,5750,6910,0,
5728,5732,6911,0,
5754,5124,6912,0,
5755,4975,6913,0,
5741,5764,6914,0,
5756,5142,6915,0,
5758,5606,6916,0,
5726,4913,6917,0,
5630,5727,6918,0,
5752,5744,6919,0,
5737,5220,6920,0,
5724,5230,6921,0,
5723,5481,6922,0,
5803,5177,6923,0,
5804,5238,6924,0,
5598,5766,6925,0,
5776,5777,6926,0,
5774,5780,6927,0,
5797,5160,6928,0,
5786,5278,6929,0,
5779,5768,6930,0,
5802,5306,6931,0,
5799,4808,6932,0,
5800,5172,6933,0,
5795,5789,6934,0,
5801,5237,6935,0,
5792,5796,6936,0,
5790,5117,6937,0,
5562,5177,6938,0,
5794,5791,6939,0,
5770,5249,6940,0,
5781,5212,6941,0,
5783,5782,6942,0,
5769,5197,6943,0,
5503,5109,6944,0,
5814,5197,6945,0,
5833,5812,6946,0,
5830,5313,6947,0,
5823,5831,6948,0,
5806,5105,6949,0,
5828,5312,6950,0,
5827,4926,6951,0,
5545,4975,6952,0,
5829,5826,6953,0,
5807,5816,6954,0,
5721,5819,6955,0,
5821,5822,6956,0,
5824,5311,6957,0,
5810,5805,6958,0,
5818,5680,6959,0,
5571,5276,6960,0,
5839,5203,6961,0,
5840,5277,6962,0,
5842,5243,6963,0,
5843,5630,6964,0,
5727,5541,6965,0,
5835,5250,6966,0,
5837,5302,6967,0,
5849,5851,6968,0,
5855,5151,6969,0,
5852,5844,6970,0,
5853,4993,6971,0,
5856,4985,6972,0,
5602,5265,6973,0,
5858,5236,6974,0,
5867,5318,6975,0,
5864,4947,6976,0,
5861,5862,6977,0,
5863,4808,6978,0,
5866,5275,6979,0,
5860,5859,6980,0,
5870,4984,6981,0,
5875,5120,6982,0,
5873,5232,6983,0,
5885,5876,6984,0,
5879,5120,6985,0,
5878,5880,6986,0,
5874,5224,6987,0,
5484,4885,6988,0,
5884,5116,6989,0,
5798,5216,6990,0,
5883,5881,6991,0,
5869,5183,6992,0,
5872,5871,6993,0,
5877,5882,6994,0,
5893,5894,6995,0,
5892,5223,6996,0,
5890,5889,6997,0,
5900,5898,6998,0,
5897,5899,6999,0,
5571,5211,7000,0,
5321,5901,7001,0,
5905,5220,7002,0,
5683,4978,7003,0,
5902,5181,7004,0,
5906,5102,7005,0,
5903,4953,7006,0,
5314,5540,7007,0,
5797,5601,7008,0,
5913,5914,7009,0,
5915,5207,7010,0,
5908,5118,7011,0,
5921,5707,7012,0,
5920,4968,7013,0,
5916,5917,7014,0,
5919,5323,7015,0,
5922,5291,7016,0,
5918,5257,7017,0,
5925,5924,7018,0,
5324,5926,7019,0,
5931,5932,7020,0,
5927,5118,7021,0,
5928,5245,7022,0,
5935,4993,7023,0,
5325,5933,7024,0,
5934,5936,7025,0,
5940,5226,7026,0,
5904,4938,7027,0,
5941,5240,7028,0,
5946,5945,7029,0,
5942,5943,7030,0,
5950,5128,7031,0,
5949,5948,7032,0,
5820,5303,7033,0,
5952,5116,7034,0,
5954,5178,7035,0,
5955,5956,7036,0,
5958,4905,7037,0,
5957,5121,7038,0,
5690,4973,7039,0,
5959,4874,7040,0,
5963,5229,7041,0,
5960,5154,7042,0,
5962,5961,7043,0,
5968,5151,7044,0,
5970,5149,7045,0,
5971,5967,7046,0,
5972,5480,7047,0,
5975,5204,7048,0,
5974,5163,7049,0,
5973,5127,7050,0,
5978,5253,7051,0,
5977,4984,7052,0,
5765,5284,7053,0,
5841,5713,7054,0,
5984,5153,7055,0,
5482,5301,7056,0,
5980,4816,7057,0,
5985,5981,7058,0,
5983,5189,7059,0,
5991,5989,7060,0,
5905,5167,7061,0,
5988,5181,7062,0,
5995,5134,7063,0,
5993,5096,7064,0,
5595,5329,7065,0,
6001,5204,7066,0,
5999,5229,7067,0,
5561,5254,7068,0,
5998,6000,7069,0,
6004,5230,7070,0,
6002,5201,7071,0,
6003,5134,7072,0,
5691,5248,7073,0,
6011,4913,7074,0,
6009,5115,7075,0,
6008,6007,7076,0,
6006,6005,7077,0,
6013,4808,7078,0,
6016,6014,7079,0,
5713,4987,7080,0,
6018,6017,7081,0,
5498,4821,7082,0,
6025,5331,7083,0,
5994,4954,7084,0,
6023,5628,7085,0,
6024,5113,7086,0,
6020,6022,7087,0,
6031,4934,7088,0,
6026,5225,7089,0,
6030,5329,7090,0,
6027,5252,7091,0,
6028,5286,7092,0,
6032,5148,7093,0,
6035,6041,7094,0,
6043,6036,7095,0,
6042,5111,7096,0,
6037,6034,7097,0,
6045,5248,7098,0,
6047,6048,7099,0,
6046,4945,7100,0,
6044,5332,7101,0,
5515,5481,7102,0,
6052,5141,7103,0,
6053,6055,7104,0,
6054,5167,7105,0,
6057,6050,7106,0,
6051,5188,7107,0,
6060,6061,7108,0,
6062,5201,7109,0,
5683,5766,7110,0,
5559,5109,7111,0,
5546,4904,7112,0,
4494,6063,7113,0,
6065,6066,7114,0,
5741,5247,7115,0,
5871,5146,7116,0,
6514,4838,7117,0,
6064,4905,7118,0,
6085,4821,7119,0,
6072,5306,7120,0,
6071,5266,7121,0,
6019,5150,7122,0,
6082,5152,7123,0,
6084,5210,7124,0,
5506,5158,7125,0,
6081,4821,7126,0,
6075,5301,7127,0,
6067,6068,7128,0,
6074,6079,7129,0,
6080,4921,7130,0,
5692,6086,7131,0,
5572,5104,7132,0,
6070,4925,7133,0,
5691,6049,7134,0,
5689,5222,7135,0,
6661,6078,7136,0,
6076,4827,7137,0,
6077,5231,7138,0,
6087,5288,7139,0,
6116,5338,7140,0,
6094,6093,7141,0,
6106,5167,7142,0,
6118,5141,7143,0,
6095,4902,7144,0,
6088,5197,7145,0,
5597,5692,7146,0,
5502,5606,7147,0,
5846,6023,7148,0,
5541,5160,7149,0,
6104,5337,7150,0,
6092,6091,7151,0,
6121,5200,7152,0,
6119,5131,7153,0,
6089,4873,7154,0,
6103,5484,7155,0,
6112,6111,7156,0,
6105,5267,7157,0,
6099,5211,7158,0,
6101,5194,7159,0,
6097,6398,7160,0,
5544,5485,7161,0,
6114,5101,7162,0,
6102,4985,7163,0,
6108,6110,7164,0,
6572,6109,7165,0,
6139,6138,7166,0,
6135,5220,7167,0,
6125,6123,7168,0,
6134,6133,7169,0,
5339,6129,7170,0,
5857,5156,7171,0,
6137,4808,7172,0,
6136,4993,7173,0,
5763,4858,7174,0,
6124,4902,7175,0,
6128,4855,7176,0,
6143,5167,7177,0,
6141,5264,7178,0,
6142,5130,7179,0,
6152,4900,7180,0,
5597,5478,7181,0,
6145,4993,7182,0,
6146,5148,7183,0,
6144,4883,7184,0,
6156,6155,7185,0,
6157,6158,7186,0,
6154,5324,7187,0,
6153,5100,7188,0,
5340,6147,7189,0,
6149,5153,7190,0,
6148,5275,7191,0,
6150,5125,7192,0,
6161,5188,7193,0,
6159,5205,7194,0,
5973,5281,7195,0,
6165,5255,7196,0,
6164,5515,7197,0,
6162,5137,7198,0,
6175,6174,7199,0,
6172,6173,7200,0,
6166,5259,7201,0,
6169,6168,7202,0,
6170,6171,7203,0,
6177,4919,7204,0,
6176,5269,7205,0,
6192,5562,7206,0,
6179,5280,7207,0,
6191,6194,7208,0,
6193,6184,7209,0,
6181,6182,7210,0,
6183,6185,7211,0,
6189,5250,7212,0,
6187,6188,7213,0,
6190,5267,7214,0,
6180,5231,7215,0,
6186,5507,7216,0,
6199,5264,7217,0,
6198,6196,7218,0,
6030,5485,7219,0,
6195,4947,7220,0,
6197,4767,7221,0,
6209,6208,7222,0,
6207,5271,7223,0,
6204,6202,7224,0,
5642,6103,7225,0,
5614,5621,7226,0,
5580,5515,7227,0,
6221,5327,7228,0,
6220,6219,7229,0,
6213,5151,7230,0,
6222,5291,7231,0,
5985,4934,7232,0,
6218,5290,7233,0,
6215,5123,7234,0,
6214,5841,7235,0,
5576,5274,7236,0,
6210,5168,7237,0,
6212,5181,7238,0,
6216,5183,7239,0,
6211,5114,7240,0,
5543,5150,7241,0,
6242,5317,7242,0,
6245,5174,7243,0,
6233,5186,7244,0,
6243,5253,7245,0,
5923,5503,7246,0,
6224,6240,7247,0,
6239,6229,7248,0,
6227,5263,7249,0,
5478,5690,7250,0,
6238,5847,7251,0,
6234,6235,7252,0,
6247,6246,7253,0,
6226,5198,7254,0,
6228,5000,7255,0,
6230,5224,7256,0,
6231,5115,7257,0,
6251,6252,7258,0,
5572,5195,7259,0,
6253,5283,7260,0,
6256,6250,7261,0,
6255,5250,7262,0,
6248,6254,7263,0,
6160,4838,7264,0,
6268,5229,7265,0,
6264,6263,7266,0,
5642,5758,7267,0,
6257,6260,7268,0,
6265,6261,7269,0,
6259,5197,7270,0,
6266,6270,7271,0,
6269,6258,7272,0,
6271,4916,7273,0,
6273,5188,7274,0,
5964,5501,7275,0,
6282,5169,7276,0,
6279,5189,7277,0,
5683,5282,7278,0,
6283,6280,7279,0,
6281,5206,7280,0,
6289,5249,7281,0,
6290,6291,7282,0,
6286,6284,7283,0,
6293,6294,7284,0,
6292,5145,7285,0,
6201,5122,7286,0,
6299,6296,7287,0,
6300,5356,7288,0,
6302,6301,7289,0,
6303,5266,7290,0,
5731,5305,7291,0,
6297,5306,7292,0,
6298,4913,7293,0,
6306,6304,7294,0,
6310,6312,7295,0,
5357,6308,7296,0,
6315,5246,7297,0,
6277,5713,7298,0,
6313,6314,7299,0,
6321,6320,7300,0,
6318,5257,7301,0,
6319,5224,7302,0,
6317,5281,7303,0,
5985,5170,7304,0,
6316,5191,7305,0,
5358,6322,7306,0,
6326,6325,7307,0,
6103,4978,7308,0,
6334,6333,7309,0,
6330,5113,7310,0,
6331,5101,7311,0,
6329,5253,7312,0,
6336,5283,7313,0,
6337,5110,7314,0,
6338,5114,7315,0,
6339,4785,7316,0,
6341,6342,7317,0,
6343,6340,7318,0,
6347,5291,7319,0,
5619,5798,7320,0,
6320,5170,7321,0,
6344,5181,7322,0,
5519,5219,7323,0,
6345,5207,7324,0,
6350,5620,7325,0,
6352,4924,7326,0,
6351,5125,7327,0,
6348,5167,7328,0,
6355,5268,7329,0,
6357,6356,7330,0,
6353,4843,7331,0,
6359,5677,7332,0,
6364,6363,7333,0,
6362,5361,7334,0,
6361,5302,7335,0,
6365,4821,7336,0,
5843,5160,7337,0,
6129,5101,7338,0,
6369,5181,7339,0,
6370,5153,7340,0,
6366,5275,7341,0,
5938,5149,7342,0,
5812,6371,7343,0,
6372,4838,7344,0,
6375,6373,7345,0,
6374,4881,7346,0,
6380,6379,7347,0,
6377,5258,7348,0,
5363,6378,7349,0,
5548,5233,7350,0,
6381,4835,7351,0,
6383,4920,7352,0,
6382,5264,7353,0,
6384,5539,7354,0,
6023,5172,7355,0,
5364,5558,7356,0,
5261,5533,7357,0,
6385,5116,7358,0,
6387,5365,7359,0,
5841,5126,7360,0,
6389,6388,7361,0,
6391,5137,7362,0,
6392,5188,7363,0,
6395,6396,7364,0,
6394,6393,7365,0,
6397,4078,7366,1,
6400,4340,7367,1,
6401,4264,7368,1,
6402,4343,7369,1,
4264,6401,7370,0,
4295,6403,7371,0,
6406,0,7372,2,
6400,0,7373,2,
6404,0,7374,2,
6408,0,7375,2,
6405,4358,7376,1,
6407,0,7377,2,
6413,0,7378,2,
6409,0,7379,2,
6405,0,7380,2,
4247,6427,7381,0,
5391,6420,7382,0,
5047,6426,7383,0,
6418,6417,7384,1,
6421,6414,7385,0,
6415,0,7386,2,
6423,4191,7387,0,
4343,6402,7388,0,
6419,4126,7389,0,
6431,0,7390,2,
6428,0,7391,2,
6417,0,7392,2,
6435,0,7393,2,
6433,0,7394,2,
6429,4126,7395,0,
6436,4370,7396,1,
5400,6432,7397,0,
6430,0,7398,2,
6434,0,7399,2,
6422,0,7400,2,
6421,5386,7401,1,
6444,0,7402,2,
4173,6442,7403,0,
5410,6438,7404,0,
6439,0,7405,2,
6441,0,7406,2,
5413,6445,7407,1,
6440,0,7408,2,
4556,6452,7409,0,
6449,0,7410,2,
6451,6445,7411,0,
6450,0,7412,2,
5416,6453,7413,0,
6436,0,7414,2,
6413,6448,7415,0,
6447,5417,7416,0,
6446,0,7417,2,
6459,0,7418,2,
6458,4302,7419,0,
4293,6457,7420,0,
6456,0,7421,2,
6455,0,7422,2,
6463,0,7423,2,
6441,6440,7424,1,
6461,4724,7425,1,
6460,0,7426,2,
6466,4565,7427,1,
6461,0,7428,2,
4563,6468,7429,0,
6467,0,7430,2,
6466,0,7431,2,
4371,6469,7432,0,
6470,0,7433,2,
4567,6472,7434,0,
5078,6473,7435,0,
5502,4978,7436,0,
5603,6476,7437,0,
6474,4858,7438,0,
6475,0,7439,2,
5517,5102,7440,0,
6485,5265,7441,0,
5964,5507,7442,0,
6483,6482,7443,0,
6477,5120,7444,0,
5618,5798,7445,0,
6479,5281,7446,0,
6484,5209,7447,0,
4732,6478,7448,0,
6481,5125,7449,0,
6480,4881,7450,0,
6496,6488,7451,0,
6221,6122,7452,0,
6492,5228,7453,0,
6490,5178,7454,0,
6491,5154,7455,0,
6486,5235,7456,0,
6398,5243,7457,0,
6493,6494,7458,0,
5442,6495,7459,0,
6489,5443,7460,0,
6497,5155,7461,0,
6508,5296,7462,0,
6512,5122,7463,0,
5939,6164,7464,0,
6030,4904,7465,0,
6499,4960,7466,0,
5444,6498,7467,0,
6517,4843,7468,0,
6500,6501,7469,0,
6507,5115,7470,0,
6504,4913,7471,0,
6518,6513,7472,0,
6516,6515,7473,0,
6509,6510,7474,0,
6505,4835,7475,0,
6511,4808,7476,0,
6521,6522,7477,0,
5972,6122,7478,0,
6519,5230,7479,0,
6524,5275,7480,0,
6523,6526,7481,0,
5939,5690,7482,0,
6527,5297,7483,0,
6528,5115,7484,0,
6525,5185,7485,0,
6165,5598,7486,0,
6529,4991,7487,0,
6530,5218,7488,0,
5543,5196,7489,0,
6535,5218,7490,0,
6534,4993,7491,0,
6538,6537,7492,0,
6536,5167,7493,0,
6539,0,7494,2,
6049,5299,7495,0,
5707,5100,7496,0,
6540,5153,7497,0,
6545,6546,7498,0,
6542,4838,7499,0,
6548,6547,7500,0,
6277,5838,7501,0,
6550,6551,7502,0,
6552,4577,7503,1,
6555,5281,7504,0,
6553,5297,7505,0,
6554,5277,7506,0,
6050,5120,7507,0,
6557,5259,7508,0,
6562,5248,7509,0,
6112,5141,7510,0,
6560,6559,7511,0,
6558,6556,7512,0,
5788,5210,7513,0,
5973,4968,7514,0,
5595,6384,7515,0,
6568,5183,7516,0,
6563,5275,7517,0,
6565,6564,7518,0,
6572,4827,7519,0,
6570,6569,7520,0,
6573,6577,7521,0,
6574,6576,7522,0,
4577,6552,7523,0,
6579,5202,7524,0,
6583,6582,7525,0,
6584,5450,7526,0,
6588,6203,7527,0,
6587,5253,7528,0,
6586,6585,7529,0,
5876,5181,7530,0,
6590,5220,7531,0,
6591,6592,7532,0,
6589,5228,7533,0,
6594,6595,7534,0,
6598,5185,7535,0,
6599,5194,7536,0,
6596,6597,7537,0,
5757,4904,7538,0,
6603,4974,7539,0,
5904,5146,7540,0,
6602,5204,7541,0,
6606,6605,7542,0,
6607,5107,7543,0,
6609,5278,7544,0,
6612,5306,7545,0,
6611,4827,7546,0,
6613,5220,7547,0,
6614,6616,7548,0,
6277,5836,7549,0,
5478,5500,7550,0,
5543,6384,7551,0,
6617,5141,7552,0,
6618,4981,7553,0,
5788,5109,7554,0,
6619,4927,7555,0,
6622,6621,7556,0,
6625,4816,7557,0,
5689,5559,7558,0,
5480,5596,7559,0,
5735,5150,7560,0,
6631,4945,7561,0,
6629,5299,7562,0,
5453,6632,7563,0,
6630,5000,7564,0,
6634,5178,7565,0,
6628,6627,7566,0,
6639,6638,7567,0,
6637,4947,7568,0,
6640,5274,7569,0,
5985,4927,7570,0,
6642,6641,7571,0,
6645,5130,7572,0,
6648,6647,7573,0,
6649,6646,7574,0,
6367,5599,7575,0,
5550,5731,7576,0,
6086,5239,7577,0,
6652,5189,7578,0,
6651,5140,7579,0,
6650,5243,7580,0,
5836,5216,7581,0,
6654,6655,7582,0,
5642,5597,7583,0,
5455,6656,7584,0,
6657,6658,7585,0,
6661,6659,7586,0,
5785,5155,7587,0,
6738,6739,7588,0,
6665,5207,7589,0,
6663,6664,7590,0,
6667,5249,7591,0,
6170,5153,7592,0,
5981,5201,7593,0,
6672,5290,7594,0,
6670,6671,7595,0,
6675,4951,7596,0,
5458,6674,7597,0,
6677,6183,7598,0,
5619,5838,7599,0,
6680,5291,7600,0,
6682,6681,7601,0,
6685,5306,7602,0,
6687,4960,7603,0,
6031,5242,7604,0,
6164,5727,7605,0,
6689,6688,7606,0,
6692,5229,7607,0,
6695,6694,7608,0,
6693,6127,7609,0,
6697,4953,7610,0,
6320,4916,7611,0,
6221,5923,7612,0,
6321,6384,7613,0,
5461,5705,7614,0,
6698,6699,7615,0,
6031,5193,7616,0,
6703,4977,7617,0,
6701,5795,7618,0,
6705,5259,7619,0,
6706,5306,7620,0,
5883,5161,7621,0,
6476,5921,7622,0,
6712,6711,7623,0,
6710,6709,7624,0,
6714,6715,7625,0,
6717,5220,7626,0,
6718,4746,7627,0,
6399,5203,7628,0,
4382,5476,7629,1,
5609,5951,7630,0,
6588,5610,7631,0,
5990,5167,7632,0,
6662,4874,7633,0,
5481,5539,7634,0,
6720,5257,7635,0,
6722,5466,7636,0,
6724,6723,7637,0,
6731,4924,7638,0,
6728,0,7639,2,
6718,4746,7640,1,
6734,5473,7641,0,
6735,5183,7642,0,
5471,6736,7643,0,
6732,6244,7644,0,
6733,6331,7645,0,
5329,5881,7646,0,
4093,6397,7647,0,
6679,0,7648,2,
6743,6742,7649,0,
6741,5119,7650,0,
6744,5482,7651,0,
5488,6745,7652,0,
5500,6748,7653,0,
6746,5491,7654,0,
6747,5499,7655,0,
6754,5207,7656,0,
6752,5190,7657,0,
6750,4924,7658,0,
6757,5518,7659,0,
6751,6753,7660,0,
6749,5180,7661,0,
6756,4921,7662,0,
6765,5530,7663,0,
6773,5545,7664,0,
5541,6766,7665,0,
6770,5536,7666,0,
6774,5251,7667,0,
6760,5234,7668,0,
6768,6771,7669,0,
6772,5214,7670,0,
6762,5252,7671,0,
6759,5528,7672,0,
6764,5532,7673,0,
6767,6769,7674,0,
6777,5120,7675,0,
6778,5566,7676,0,
6789,5571,7677,0,
6782,5503,7678,0,
6796,5273,7679,0,
6794,6795,7680,0,
6791,6792,7681,0,
6781,5515,7682,0,
6786,5216,7683,0,
6788,5578,7684,0,
6787,4962,7685,0,
6775,5160,7686,0,
6780,5576,7687,0,
6779,5192,7688,0,
6783,5158,7689,0,
6784,6785,7690,0,
6806,6807,7691,0,
6805,5604,7692,0,
6799,5290,7693,0,
6810,5598,7694,0,
6800,5620,7695,0,
6802,6798,7696,0,
5596,6803,7697,0,
6808,5589,7698,0,
6828,6832,7699,0,
6835,6819,7700,0,
6829,5139,7701,0,
6817,5570,7702,0,
6831,5178,7703,0,
6815,6811,7704,0,
6824,5194,7705,0,
6820,5645,7706,0,
6818,4968,7707,0,
6821,4802,7708,0,
5642,6834,7709,0,
6812,6813,7710,0,
6826,4987,7711,0,
6836,5667,7712,0,
6823,5658,7713,0,
6851,6845,7714,0,
5507,6844,7715,0,
6863,5609,7716,0,
6855,5704,7717,0,
6857,5703,7718,0,
5716,6838,7719,0,
6865,5695,7720,0,
6860,6864,7721,0,
6853,6849,7722,0,
6843,5690,7723,0,
6854,4927,7724,0,
6856,5274,7725,0,
6852,4842,7726,0,
6840,5675,7727,0,
6847,6850,7728,0,
6842,5685,7729,0,
6859,6861,7730,0,
6862,5683,7731,0,
6872,6873,7732,0,
6882,6891,7733,0,
6893,5501,7734,0,
6868,5734,7735,0,
6878,5765,7736,0,
5304,6869,7737,0,
6890,4990,7738,0,
6871,6866,7739,0,
6874,5296,7740,0,
6880,6879,7741,0,
6895,5497,7742,0,
6885,6875,7743,0,
6887,5751,7744,0,
6889,6892,7745,0,
6884,6881,7746,0,
6867,6774,7747,0,
6876,5748,7748,0,
6886,5739,7749,0,
6905,5262,7750,0,
6898,5254,7751,0,
6901,5162,7752,0,
6911,5764,7753,0,
6904,5129,7754,0,
6914,6917,7755,0,
6908,5788,7756,0,
6909,5252,7757,0,
6920,5296,7758,0,
6912,6913,7759,0,
6897,5772,7760,0,
6903,5775,7761,0,
6907,5784,7762,0,
5771,6899,7763,0,
6902,6906,7764,0,
6933,5832,7765,0,
6938,5834,7766,0,
6939,6936,7767,0,
6935,6932,7768,0,
6940,6943,7769,0,
6924,5813,7770,0,
6928,5825,7771,0,
6926,6927,7772,0,
6834,5301,7773,0,
6942,6929,7774,0,
6934,6931,7775,0,
6944,5202,7776,0,
6949,5314,7777,0,
6950,6951,7778,0,
6952,5198,7779,0,
6960,5847,7780,0,
6964,5850,7781,0,
6962,5848,7782,0,
6963,5180,7783,0,
6965,5632,7784,0,
6961,5845,7785,0,
6749,5297,7786,0,
5865,6972,7787,0,
6969,5857,7788,0,
6744,5196,7789,0,
6973,6971,7790,0,
6977,6978,7791,0,
6980,6974,7792,0,
6975,6979,7793,0,
6990,5208,7794,0,
6985,5886,7795,0,
6987,5891,7796,0,
6988,4947,7797,0,
6982,5589,7798,0,
6986,6989,7799,0,
6994,6991,7800,0,
6983,5888,7801,0,
6993,6992,7802,0,
6996,5711,7803,0,
6998,5282,7804,0,
7000,5104,7805,0,
7005,5912,7806,0,
7004,7002,7807,0,
7006,5909,7808,0,
7003,5907,7809,0,
7009,7010,7810,0,
7007,7008,7811,0,
7013,7016,7812,0,
7017,5923,7813,0,
7014,7015,7814,0,
7012,5177,7815,0,
7018,6810,7816,0,
7021,5937,7817,0,
7024,7025,7818,0,
5836,6849,7819,0,
6921,5938,7820,0,
6875,4783,7821,0,
7027,5944,7822,0,
7028,5947,7823,0,
7030,5722,7824,0,
7032,5951,7825,0,
6987,5482,7826,0,
7031,6775,7827,0,
7034,4978,7828,0,
7039,5123,7829,0,
7038,7037,7830,0,
7042,5482,7831,0,
5965,7041,7832,0,
7044,7045,7833,0,
7049,5976,7834,0,
5580,6966,7835,0,
7023,5170,7836,0,
7053,5227,7837,0,
7054,5727,7838,0,
7051,5982,7839,0,
7056,5986,7840,0,
6894,7055,7841,0,
7058,4962,7842,0,
7057,5990,7843,0,
7060,7061,7844,0,
5525,6970,7845,0,
7063,5997,7846,0,
7062,7055,7847,0,
5800,7064,7848,0,
7067,5296,7849,0,
7071,6010,7850,0,
7072,6012,7851,0,
7073,6015,7852,0,
7077,7075,7853,0,
7076,7074,7854,0,
6896,4934,7855,0,
7080,5287,7856,0,
7078,5170,7857,0,
7082,6019,7858,0,
7081,5539,7859,0,
7079,7086,7860,0,
7085,5576,7861,0,
7084,5268,7862,0,
7092,6039,7863,0,
7089,7088,7864,0,
7093,7096,7865,0,
7099,7100,7866,0,
6807,7098,7867,0,
7106,7107,7868,0,
7103,7104,7869,0,
6058,7105,7870,0,
7055,5165,7871,0,
6073,7112,7872,0,
7118,5711,7873,0,
7114,7117,7874,0,
6083,7116,7875,0,
7115,5205,7876,0,
6069,7109,7877,0,
7113,0,7878,2,
7020,5930,7879,0,
7111,5171,7880,0,
7110,6070,7881,0,
7122,5272,7882,0,
7132,6115,7883,0,
7139,5500,7884,0,
6090,7121,7885,0,
7138,7119,7886,0,
7137,6117,7887,0,
7134,7136,7888,0,
7135,7126,7889,0,
7133,6120,7890,0,
7125,6098,7891,0,
7129,6893,7892,0,
6096,7123,7893,0,
7130,7127,7894,0,
7131,6107,7895,0,
7120,5596,7896,0,
6130,6837,7897,0,
7161,6911,7898,0,
7158,6399,7899,0,
7148,6127,7900,0,
7159,7155,7901,0,
7165,7164,7902,0,
7156,5277,7903,0,
7154,6132,7904,0,
5595,7144,7905,0,
7157,6023,7906,0,
7141,7151,7907,0,
7149,7150,7908,0,
7152,6834,7909,0,
6126,7147,7910,0,
7145,6131,7911,0,
7143,7142,7912,0,
7146,5138,7913,0,
7066,6122,7914,0,
6783,4783,7915,0,
7166,7167,7916,0,
7173,7172,7917,0,
7174,5890,7918,0,
7176,7175,7919,0,
7177,6151,7920,0,
7184,6160,7921,0,
7183,5341,7922,0,
7186,7185,7923,0,
7187,5343,7924,0,
7190,7191,7925,0,
7180,5327,7926,0,
7189,7192,7927,0,
6963,7188,7928,0,
7181,7182,7929,0,
7193,6163,7930,0,
7098,5212,7931,0,
5618,7194,7932,0,
7197,7196,7933,0,
7203,7201,7934,0,
7199,7200,7935,0,
7204,6178,7936,0,
7205,5177,7937,0,
5330,7104,7938,0,
6782,5497,7939,0,
6852,5216,7940,0,
7215,6200,7941,0,
7208,7207,7942,0,
7206,7023,7943,0,
7210,6201,7944,0,
7213,7212,7945,0,
6891,7216,7946,0,
7209,7211,7947,0,
7217,5160,7948,0,
7219,6206,7949,0,
7218,7220,7950,0,
7222,7223,7951,0,
7226,6070,7952,0,
7225,5261,7953,0,
7227,7241,7954,0,
7239,6244,7955,0,
7230,5628,7956,0,
7234,5330,7957,0,
7235,6863,7958,0,
7229,7231,7959,0,
6237,7236,7960,0,
7233,6236,7961,0,
7228,6225,7962,0,
7238,6223,7963,0,
7232,5107,7964,0,
7248,7253,7965,0,
7257,7256,7966,0,
6249,7244,7967,0,
7064,5487,7968,0,
6998,7251,7969,0,
7246,5158,7970,0,
7247,7250,7971,0,
7242,7245,7972,0,
7126,7249,7973,0,
7252,0,7974,2,
6801,5156,7975,0,
7263,7262,7976,0,
7259,5265,7977,0,
7272,7268,7978,0,
7265,7264,7979,0,
5697,6862,7980,0,
7275,5242,7981,0,
7217,5213,7982,0,
7279,7277,7983,0,
7280,6288,7984,0,
7276,5353,7985,0,
7278,5355,7986,0,
7285,6969,7987,0,
7284,5763,7988,0,
7289,7290,7989,0,
7291,6311,7990,0,
7293,6309,7991,0,
7287,7292,7992,0,
7251,7042,7993,0,
7299,5192,7994,0,
5562,7120,7995,0,
6779,5194,7996,0,
7300,6323,7997,0,
7305,6328,7998,0,
7302,6324,7999,0,
7303,7301,8000,0,
7304,6327,8001,0,
6086,7144,8002,0,
7044,5763,8003,0,
6769,5162,8004,0,
7308,6332,8005,0,
7311,5360,8006,0,
5573,7312,8007,0,
7314,5603,8008,0,
6782,5543,8009,0,
7315,7316,8010,0,
7313,4927,8011,0,
7318,7317,8012,0,
7324,6905,8013,0,
7323,7322,8014,0,
7014,5926,8015,0,
7321,6349,8016,0,
7325,7327,8017,0,
7329,6360,8018,0,
7332,7333,8019,0,
7335,7334,8020,0,
5362,7222,8021,0,
7336,6866,8022,0,
7337,6368,8023,0,
6164,7032,8024,0,
7338,6114,8025,0,
7342,6376,8026,0,
7343,7344,8027,0,
7345,7346,8028,0,
7349,7351,8029,0,
7350,5174,8030,0,
7347,7348,8031,0,
7198,7336,8032,0,
5478,7353,8033,0,
7221,5982,8034,0,
7354,7355,8035,0,
7359,7358,8036,0,
7357,6390,8037,0,
7360,5207,8038,0,
7365,7364,8039,0,
7367,4347,8040,1,
7368,4266,8041,1,
4266,7368,8042,0,
7369,4275,8043,1,
7371,0,8044,2,
7370,0,8045,2,
7367,0,8046,2,
6410,7372,8047,0,
6411,7375,8048,0,
7373,4177,8049,0,
7376,0,8050,2,
5393,7378,8051,0,
4358,7380,8052,0,
6416,7379,8053,0,
6740,0,8054,2,
4275,7369,8055,0,
7385,0,8056,2,
7388,0,8057,2,
7384,0,8058,2,
7383,0,8059,2,
7389,4413,8060,0,
6434,7386,8061,0,
7387,0,8062,2,
7381,0,8063,2,
7376,5390,8064,1,
7398,7394,8065,0,
7396,4561,8066,1,
7395,4193,8067,0,
6415,7399,8068,0,
6418,7392,8069,0,
6443,7391,8070,0,
7382,0,8071,2,
7397,0,8072,2,
7403,0,8073,2,
7394,7398,8074,1,
7406,7408,8075,0,
7401,7404,8076,1,
7404,0,8077,2,
7401,0,8078,2,
5421,7405,8079,0,
7407,0,8080,2,
7396,0,8081,2,
7409,0,8082,2,
4370,7414,8083,0,
7416,0,8084,2,
7413,0,8085,2,
7415,0,8086,2,
7411,0,8087,2,
6454,7410,8088,0,
7419,0,8089,2,
7413,6459,8090,0,
7420,0,8091,2,
5433,7421,8092,0,
6464,7426,8093,0,
7427,6467,8094,1,
7428,5073,8095,0,
7427,0,8096,2,
7429,0,8097,2,
4565,7431,8098,0,
7432,0,8099,2,
6471,7433,8100,0,
7434,0,8101,2,
5077,7434,8102,1,
7435,0,8103,2,
5439,7435,8104,1,
7436,5301,8105,0,
7438,7440,8106,0,
7437,5982,8107,0,
7450,7443,8108,0,
7121,5857,8109,0,
5082,7448,8110,1,
5573,7034,8111,0,
7445,5179,8112,0,
5883,7205,8113,0,
7441,5683,8114,0,
7188,7335,8115,0,
7444,6487,8116,0,
7447,5149,8117,0,
5689,7449,8118,0,
7457,7456,8119,0,
7453,6506,8120,0,
7459,7458,8121,0,
7455,6502,8122,0,
7448,0,8123,2,
7452,5282,8124,0,
7089,5282,8125,0,
7468,5981,8126,0,
7469,7475,8127,0,
7470,6895,8128,0,
7463,7462,8129,0,
7467,7466,8130,0,
7464,5771,8131,0,
7476,7313,8132,0,
7473,7472,8133,0,
7465,5103,8134,0,
7483,7484,8135,0,
7234,7481,8136,0,
7247,6277,8137,0,
7487,7488,8138,0,
7489,5301,8139,0,
7490,7491,8140,0,
7492,7493,8141,0,
5085,7494,8142,0,
7299,5711,8143,0,
7496,6541,8144,0,
7495,5116,8145,0,
7497,6543,8146,0,
7018,7500,8147,0,
7258,5158,8148,0,
7505,7504,8149,0,
7506,6561,8150,0,
7508,7510,8151,0,
7194,5551,8152,0,
5595,6803,8153,0,
7507,7182,8154,0,
7514,6566,8155,0,
7515,5939,8156,0,
7476,5296,8157,0,
7518,7517,8158,0,
6808,6763,8159,0,
7450,7180,8160,0,
7059,6806,8161,0,
7519,5926,8162,0,
7523,0,8163,2,
6848,5180,8164,0,
6844,6476,8165,0,
5891,6766,8166,0,
7447,5153,8167,0,
7526,7441,8168,0,
7194,5606,8169,0,
7529,7528,8170,0,
7527,5109,8171,0,
7532,7531,8172,0,
6593,7530,8173,0,
5711,7117,8174,0,
6890,5104,8175,0,
7449,5972,8176,0,
7535,6600,8177,0,
7536,6601,8178,0,
7015,5716,8179,0,
7540,6604,8180,0,
7538,4855,8181,0,
7539,7541,8182,0,
7067,5501,8183,0,
5497,6919,8184,0,
7546,7545,8185,0,
6203,7547,8186,0,
5487,7481,8187,0,
6780,5213,8188,0,
7550,5881,8189,0,
7555,6623,8190,0,
7553,7552,8191,0,
7223,5994,8192,0,
7558,5196,8193,0,
6367,7180,8194,0,
7468,5621,8195,0,
7560,4930,8196,0,
7561,6635,8197,0,
7564,6636,8198,0,
7567,7568,8199,0,
7569,6643,8200,0,
7570,6644,8201,0,
7082,4977,8202,0,
5621,7353,8203,0,
7078,7574,8204,0,
7573,5904,8205,0,
7576,7577,8206,0,
7579,7578,8207,0,
7581,6653,8208,0,
7507,6742,8209,0,
7582,5762,8210,0,
7584,7585,8211,0,
7646,6737,8212,0,
7648,6728,8213,0,
7230,5296,8214,0,
7590,7589,8215,0,
7591,5457,8216,0,
7593,5198,8217,0,
5561,7086,8218,0,
7194,6277,8219,0,
7592,6668,8220,0,
7314,5213,8221,0,
7594,6673,8222,0,
7596,6676,8223,0,
7103,5288,8224,0,
7157,5735,8225,0,
7470,6815,8226,0,
7600,5122,8227,0,
7454,5254,8228,0,
7526,5723,8229,0,
7604,6691,8230,0,
7297,5797,8231,0,
7285,4904,8232,0,
7041,6751,8233,0,
7324,5193,8234,0,
6769,5525,8235,0,
7609,7608,8236,0,
6904,5972,8237,0,
6908,5921,8238,0,
6994,7334,8239,0,
7615,7614,8240,0,
7612,7611,8241,0,
7613,6700,8242,0,
7616,5225,8243,0,
7194,5841,8244,0,
5766,7525,8245,0,
7619,6707,8246,0,
7620,5716,8247,0,
6782,5723,8248,0,
7621,6708,8249,0,
6999,5589,8250,0,
5697,7534,8251,0,
7627,6719,8252,0,
7628,5241,8253,0,
7630,6721,8254,0,
7119,6087,8255,0,
6753,7089,8256,0,
6719,7627,8257,1,
7634,6729,8258,0,
7637,7636,8259,0,
6122,6787,8260,0,
6049,7574,8261,0,
7633,7632,8262,0,
7639,5470,8263,0,
7638,5472,8264,0,
7629,0,8265,2,
4097,7640,8266,1,
8266,31,8267,0,
4097,8267,8268,1,
7643,7642,8269,0,
7645,7644,8270,0,
7647,0,8271,2,
4580,8265,8272,0,
8263,4580,8273,0,
8268,0,8274,2,
4100,8257,8275,1,
8275,31,8276,0,
4100,8276,8277,1,
7377,8044,8278,0,
7649,5498,8279,0,
7651,5147,8280,0,
7650,4802,8281,0,
7655,5524,8282,0,
7653,5196,8283,0,
7652,5192,8284,0,
7662,4858,8285,0,
7657,6758,8286,0,
7660,5548,8287,0,
7658,5537,8288,0,
6763,7656,8289,0,
7671,5588,8290,0,
7670,5586,8291,0,
7667,5117,8292,0,
7663,5570,8293,0,
7665,7666,8294,0,
7672,7673,8295,0,
7669,6793,8296,0,
7674,6797,8297,0,
7685,5274,8298,0,
7683,5129,8299,0,
7678,7680,8300,0,
7677,5593,8301,0,
6804,7686,8302,0,
7689,5626,8303,0,
7690,5614,8304,0,
7687,6809,8305,0,
7688,6801,8306,0,
7675,5570,8307,0,
7697,6103,8308,0,
7693,5644,8309,0,
7698,6833,8310,0,
7694,5648,8311,0,
7708,5104,8312,0,
7709,6848,8313,0,
7701,6858,8314,0,
7713,5302,8315,0,
7711,5705,8316,0,
7712,6846,8317,0,
7702,7707,8318,0,
7704,7705,8319,0,
7726,5307,8320,0,
7724,5747,8321,0,
7727,5731,8322,0,
7719,5196,8323,0,
6870,7715,8324,0,
7731,6896,8325,0,
7716,5730,8326,0,
7730,7720,8327,0,
7722,7723,8328,0,
6843,7656,8329,0,
7714,6894,8330,0,
6877,7725,8331,0,
7740,5767,8332,0,
7738,5778,8333,0,
7734,5773,8334,0,
7743,5285,8335,0,
7739,7732,8336,0,
7741,7737,8337,0,
7749,6919,8338,0,
7746,5515,8339,0,
7745,5497,8340,0,
7733,4921,8341,0,
7748,6910,8342,0,
7756,5817,8343,0,
7752,5809,8344,0,
7751,5808,8345,0,
7760,5820,8346,0,
6925,7753,8347,0,
7755,7750,8348,0,
7754,5815,8349,0,
7765,6953,8350,0,
7717,5500,8351,0,
7771,6957,8352,0,
7766,6946,8353,0,
7776,5836,8354,0,
6956,7768,8355,0,
7773,5135,8356,0,
7777,6966,8357,0,
7675,5500,8358,0,
7781,6968,8359,0,
7783,5171,8360,0,
7785,6970,8361,0,
7786,5868,8362,0,
7789,5239,8363,0,
7788,5252,8364,0,
7708,6882,8365,0,
7797,5895,8366,0,
7796,5896,8367,0,
7799,7800,8368,0,
6995,7794,8369,0,
7803,4990,8370,0,
7804,5109,8371,0,
7809,7011,8372,0,
7811,5741,8373,0,
7815,5930,8374,0,
7813,5929,8375,0,
7816,7019,8376,0,
7817,5544,8377,0,
7820,4968,8378,0,
7819,6920,8379,0,
7822,7029,8380,0,
7824,6782,8381,0,
7780,7033,8382,0,
7826,5953,8383,0,
7827,5213,8384,0,
7828,5180,8385,0,
7829,5966,8386,0,
7831,5969,8387,0,
7833,7050,8388,0,
7835,5327,8389,0,
7836,4960,8390,0,
7782,5215,8391,0,
7837,5987,8392,0,
7838,7839,8393,0,
7841,7062,8394,0,
7842,5996,8395,0,
7848,7068,8396,0,
7851,7840,8397,0,
7079,7852,8398,0,
7854,5741,8399,0,
7834,7853,8400,0,
7855,6021,8401,0,
7856,6982,8402,0,
7858,4877,8403,0,
7859,5282,8404,0,
7861,6033,8405,0,
7862,6040,8406,0,
7860,7090,8407,0,
7865,5764,8408,0,
7866,5005,8409,0,
7869,4873,8410,0,
7879,7815,8411,0,
7876,6100,8412,0,
7128,7877,8413,0,
7875,5741,8414,0,
7873,7124,8415,0,
7874,7872,8416,0,
7881,7880,8417,0,
7794,7030,8418,0,
6113,7878,8419,0,
7160,7893,8420,0,
7896,5843,8421,0,
7890,7153,8422,0,
7883,7140,8423,0,
7892,7894,8424,0,
7895,7163,8425,0,
7885,7891,8426,0,
7886,7884,8427,0,
7889,7888,8428,0,
7882,5943,8429,0,
7043,7913,8430,0,
7915,5262,8431,0,
7909,7910,8432,0,
7897,7908,8433,0,
7899,6140,8434,0,
7902,7903,8435,0,
6869,7911,8436,0,
7901,7169,8437,0,
7906,7171,8438,0,
7914,6786,8439,0,
7918,7179,8440,0,
7927,6811,8441,0,
7922,7921,8442,0,
7926,5172,8443,0,
7924,7746,8444,0,
7929,7195,8445,0,
7928,7923,8446,0,
7931,6167,8447,0,
5551,7935,8448,0,
7937,7936,8449,0,
7940,5149,8450,0,
7652,6203,8451,0,
7943,7947,8452,0,
7945,6772,8453,0,
7944,7946,8454,0,
7949,6217,8455,0,
5722,7713,8456,0,
7948,5254,8457,0,
7953,7237,8458,0,
7952,6232,8459,0,
5765,7951,8460,0,
7745,6772,8461,0,
7960,7958,8462,0,
7957,4986,8463,0,
6070,7900,8464,0,
7954,7243,8465,0,
7956,6019,8466,0,
7962,7254,8467,0,
7964,7255,8468,0,
7970,6267,8469,0,
7966,7258,8470,0,
7973,5246,8471,0,
7261,7967,8472,0,
7965,7971,8473,0,
7968,5281,8474,0,
7975,6272,8475,0,
7977,6275,8476,0,
7980,6824,8477,0,
7913,7851,8478,0,
7982,6287,8479,0,
7981,5719,8480,0,
7984,7109,8481,0,
7986,7281,8482,0,
7911,5172,8483,0,
7988,7286,8484,0,
7991,6956,8485,0,
7990,7295,8486,0,
7993,7297,8487,0,
7994,7995,8488,0,
8002,5359,8489,0,
7998,7999,8490,0,
7997,7306,8491,0,
8001,7307,8492,0,
8003,5221,8493,0,
8004,6335,8494,0,
8005,5731,8495,0,
8008,5614,8496,0,
8011,5293,8497,0,
8009,5212,8498,0,
7966,5841,8499,0,
7123,8010,8500,0,
8016,7328,8501,0,
8015,6358,8502,0,
8013,6354,8503,0,
7188,7924,8504,0,
5314,8018,8505,0,
8019,6367,8506,0,
8020,7051,8507,0,
8022,4973,8508,0,
7727,5798,8509,0,
7339,8021,8510,0,
8023,7341,8511,0,
8024,5632,8512,0,
5619,7795,8513,0,
8030,7352,8514,0,
8032,6386,8515,0,
8037,7361,8516,0,
5255,8038,8517,0,
4531,8041,8518,0,
8040,0,8519,2,
8042,0,8520,2,
8043,4360,8521,1,
8040,4281,8522,1,
7374,8045,8523,0,
4347,8046,8524,0,
8049,4217,8525,0,
8048,0,8526,2,
4452,8048,8527,1,
4360,8043,8528,0,
8050,6424,8529,0,
8053,0,8530,2,
8055,0,8531,2,
8052,0,8532,2,
8051,0,8533,2,
8041,4531,8534,1,
7393,8056,8535,0,
7390,8059,8536,0,
8064,7397,8537,1,
8060,0,8538,2,
8047,0,8539,2,
5064,8062,8540,0,
8061,0,8541,2,
8069,0,8542,2,
8066,6446,8543,1,
8066,0,8544,2,
8070,0,8545,2,
8064,8072,8546,0,
8078,8077,8547,0,
4561,8081,8548,0,
8076,0,8549,2,
8075,0,8550,2,
8079,0,8551,2,
6455,8076,8552,0,
8074,0,8553,2,
7418,8085,8554,0,
8084,8087,8555,0,
6462,8088,8556,1,
8083,0,8557,2,
6465,8089,8558,0,
7424,8092,8559,1,
8088,0,8560,2,
8093,0,8561,2,
8092,0,8562,2,
8095,0,8563,2,
8096,7430,8564,0,
8100,8102,8565,1,
8098,0,8566,2,
5429,8070,8567,1,
8100,0,8568,2,
5438,8101,8569,0,
5439,8103,8570,0,
8104,0,8571,2,
8105,4783,8572,0,
7017,8106,8573,0,
8107,7446,8574,0,
8114,6203,8575,0,
8108,8109,8576,0,
8113,4978,8577,0,
7959,5841,8578,0,
8115,7984,8579,0,
8117,6514,8580,0,
7451,7991,8581,0,
8111,6503,8582,0,
8112,7461,8583,0,
8118,7454,8584,0,
8124,6520,8585,0,
8120,8122,8586,0,
5445,8123,8587,0,
7478,8132,8588,0,
8134,7479,8589,0,
8125,5162,8590,0,
8126,5276,8591,0,
7482,7662,8592,0,
8142,0,8593,2,
8143,6544,8594,0,
8144,7499,8595,0,
8145,5297,8596,0,
8146,7498,8597,0,
8148,5252,8598,0,
8150,7511,8599,0,
8149,7512,8600,0,
8153,6567,8601,0,
8154,7513,8602,0,
8157,5221,8603,0,
5544,8155,8604,0,
5525,7875,8605,0,
8159,5156,8606,0,
7865,7474,8607,0,
8162,6578,8608,0,
8164,5139,8609,0,
8165,6580,8610,0,
8010,7525,8611,0,
8166,5610,8612,0,
5598,7684,8613,0,
8168,8167,8614,0,
8171,7533,8615,0,
7967,7534,8616,0,
8174,8175,8617,0,
8178,8177,8618,0,
8179,5938,8619,0,
8180,7542,8620,0,
8181,7543,8621,0,
8145,4990,8622,0,
8183,6610,8623,0,
8186,6615,8624,0,
7812,5596,8625,0,
5722,8150,8626,0,
5683,8018,8627,0,
8188,6620,8628,0,
8192,6624,8629,0,
8195,6633,8630,0,
8193,6626,8631,0,
7650,7031,8632,0,
7730,7253,8633,0,
8196,7565,8634,0,
6867,8038,8635,0,
8201,7572,8636,0,
8200,7571,8637,0,
8155,7511,8638,0,
7575,8205,8639,0,
8204,8202,8640,0,
8203,7045,8641,0,
8206,7580,8642,0,
7776,6748,8643,0,
8213,0,8644,2,
8224,5124,8645,0,
7775,5798,8646,0,
8214,6666,8647,0,
8216,7936,8648,0,
7547,7856,8649,0,
8219,7907,8650,0,
8218,6669,8651,0,
8106,5904,8652,0,
8217,6309,8653,0,
8222,7597,8654,0,
8223,7598,8655,0,
6996,8005,8656,0,
8225,5211,8657,0,
7720,5762,8658,0,
8227,6684,8659,0,
7817,5766,8660,0,
8228,6686,8661,0,
8229,6909,8662,0,
8208,5525,8663,0,
8230,7607,8664,0,
8232,6696,8665,0,
8235,8234,8666,0,
7782,5838,8667,0,
7443,7853,8668,0,
8238,6702,8669,0,
8237,7249,8670,0,
8242,7618,8671,0,
8241,6704,8672,0,
6885,7668,8673,0,
8105,5164,8674,0,
8249,7624,8675,0,
5465,8252,8676,1,
7927,7947,8677,0,
7830,5544,8678,0,
5838,7854,8679,0,
8252,5465,8680,0,
8253,5238,8681,0,
8254,7635,8682,0,
7600,7779,8683,0,
7852,6086,8684,0,
8255,5766,8685,0,
8261,8260,8686,0,
6049,8258,8687,0,
8264,7641,8688,0,
8212,7588,8689,0,
8268,8273,8690,1,
8281,5225,8691,0,
8280,6755,8692,0,
8279,7654,8693,0,
8283,5553,8694,0,
8284,7661,8695,0,
8282,5539,8696,0,
8289,5587,8697,0,
7664,8287,8698,0,
8285,5201,8699,0,
8286,5580,8700,0,
8295,8297,8701,0,
7682,8292,8702,0,
8291,8294,8703,0,
8290,7679,8704,0,
5599,8288,8705,0,
8296,5621,8706,0,
8293,5601,8707,0,
8303,6830,8708,0,
7691,8304,8709,0,
8301,7695,8710,0,
8298,6822,8711,0,
8302,6825,8712,0,
8299,6816,8713,0,
8306,6827,8714,0,
8307,6837,8715,0,
8308,5673,8716,0,
8311,6839,8717,0,
8310,6841,8718,0,
8309,7706,8719,0,
8313,8312,8720,0,
8315,5306,8721,0,
8318,7728,8722,0,
8317,5606,8723,0,
8319,6888,8724,0,
8316,6883,8725,0,
8314,5305,8726,0,
5793,8324,8727,0,
8321,7744,8728,0,
8326,6900,8729,0,
8331,6915,8730,0,
8325,5787,8731,0,
8323,5785,8732,0,
8322,7747,8733,0,
8333,5811,8734,0,
8335,6937,8735,0,
8338,7758,8736,0,
8332,7761,8737,0,
8337,8336,8738,0,
8345,6954,8739,0,
8349,6959,8740,0,
8348,6958,8741,0,
8344,6955,8742,0,
8346,6948,8743,0,
8343,6945,8744,0,
8351,5846,8745,0,
8356,6967,8746,0,
8360,6976,8747,0,
8362,6984,8748,0,
8363,5887,8749,0,
8364,6981,8750,0,
8369,8368,8751,0,
8367,7001,8752,0,
8365,5548,8753,0,
8366,5904,8754,0,
8370,5911,8755,0,
8375,7022,8756,0,
8374,7020,8757,0,
8377,5939,8758,0,
8378,7026,8759,0,
8382,6838,8760,0,
8383,7036,8761,0,
8384,7035,8762,0,
8385,7040,8763,0,
8386,4968,8764,0,
8387,7046,8765,0,
8388,5979,8766,0,
8389,7052,8767,0,
7059,8390,8768,0,
8391,5118,8769,0,
8393,7843,8770,0,
8394,7065,8771,0,
7845,8386,8772,0,
8396,7070,8773,0,
8397,5305,8774,0,
8400,5271,8775,0,
8399,7857,8776,0,
8402,4927,8777,0,
8401,7087,8778,0,
8404,7091,8779,0,
8405,7095,8780,0,
8407,7094,8781,0,
8397,7062,8782,0,
8408,7867,8783,0,
8410,6059,8784,0,
8414,8415,8785,0,
8411,8418,8786,0,
8419,7162,8787,0,
8417,7887,8788,0,
8413,8294,8789,0,
8412,8416,8790,0,
8427,7912,8791,0,
8423,7168,8792,0,
7898,8420,8793,0,
8421,8422,8794,0,
8426,8428,8795,0,
8424,7905,8796,0,
8425,7904,8797,0,
8429,7907,8798,0,
8430,8433,8799,0,
8439,8431,8800,0,
8432,7919,8801,0,
8438,7178,8802,0,
8436,7917,8803,0,
8291,5766,8804,0,
8422,7925,8805,0,
8442,5722,8806,0,
7932,8444,8807,0,
8445,7930,8808,0,
8446,8443,8809,0,
8447,7202,8810,0,
8448,7938,8811,0,
8449,7939,8812,0,
8450,6205,8813,0,
8452,8454,8814,0,
8451,5282,8815,0,
8455,6049,8816,0,
8457,6241,8817,0,
8459,7961,8818,0,
8458,7963,8819,0,
7969,8462,8820,0,
8465,7972,8821,0,
8463,7260,8822,0,
8470,7266,8823,0,
8474,7270,8824,0,
8472,8473,8825,0,
8469,7271,8826,0,
8476,5614,8827,0,
8475,7273,8828,0,
8477,6285,8829,0,
8480,7985,8830,0,
8479,7282,8831,0,
8481,5757,8832,0,
8483,5149,8833,0,
8484,7288,8834,0,
8485,5630,8835,0,
8489,7309,8836,0,
8493,7310,8837,0,
8495,8007,8838,0,
8494,5550,8839,0,
8497,7319,8840,0,
8499,8500,8841,0,
8502,7330,8842,0,
8503,7331,8843,0,
8504,8505,8844,0,
8507,7340,8845,0,
8510,8025,8846,0,
8514,6899,8847,0,
8515,7356,8848,0,
8517,7312,8849,0,
7844,8406,8850,0,
8519,4158,8851,0,
8518,0,8852,2,
8521,5379,8853,1,
8522,4292,8854,1,
8522,0,8855,2,
8524,0,8856,2,
6422,8523,8857,1,
8521,6425,8858,0,
8278,6740,8859,1,
8278,0,8860,2,
4361,8526,8861,0,
8528,0,8862,2,
8529,0,8863,2,
8525,0,8864,2,
8527,5401,8865,0,
8523,0,8866,2,
8530,8058,8867,0,
8057,8531,8868,0,
8530,8058,8869,1,
5414,8533,8870,0,
7402,8538,8871,0,
8537,0,8872,2,
8535,0,8873,2,
8540,0,8874,2,
8536,0,8875,2,
8068,8533,8876,0,
8537,8535,8877,1,
8544,7417,8878,0,
8527,5049,8879,1,
5429,8545,8880,0,
8548,0,8881,2,
8546,0,8882,2,
8082,8550,8883,0,
7422,8549,8884,0,
8547,0,8885,2,
8552,0,8886,2,
8554,0,8887,2,
8536,7407,8888,0,
8556,0,8889,2,
8091,8557,8890,0,
8555,0,8891,2,
6462,8560,8892,0,
8558,0,8893,2,
8559,0,8894,2,
7424,8562,8895,0,
8094,8558,8896,1,
8564,0,8897,2,
8097,8563,8898,0,
8099,8566,8899,0,
8565,0,8900,2,
8567,0,8901,2,
8102,8568,8902,0,
8569,0,8903,2,
8570,0,8904,2,
7442,8572,8905,0,
8574,8116,8906,0,
8584,7471,8907,0,
8121,8580,8908,0,
8578,7451,8909,0,
8581,8576,8910,0,
8583,8119,8911,0,
8575,8577,8912,0,
8586,8476,8913,0,
8133,8455,8914,0,
8587,0,8915,2,
8585,7477,8916,0,
8588,7480,8917,0,
8590,7485,8918,0,
8591,6532,8919,0,
8514,5546,8920,0,
8593,4737,8921,1,
7501,8595,8922,0,
8596,5195,8923,0,
8593,4737,8924,0,
8425,7188,8925,0,
8598,7509,8926,0,
8135,8380,8927,0,
8600,5481,8928,0,
8602,7516,8929,0,
8603,6571,8930,0,
8607,8161,8931,0,
8606,6575,8932,0,
8605,8160,8933,0,
8608,7521,8934,0,
8610,7524,8935,0,
8609,6581,8936,0,
8169,8613,8937,0,
8615,8173,8938,0,
8616,5951,8939,0,
8617,7537,8940,0,
8622,5179,8941,0,
8623,7544,8942,0,
8624,7548,8943,0,
8626,7099,8944,0,
7549,8625,8945,0,
8627,7551,8946,0,
8628,7556,8947,0,
8629,7557,8948,0,
7030,8595,8949,0,
8630,7563,8950,0,
8631,7566,8951,0,
8633,8632,8952,0,
8634,8198,8953,0,
8486,8468,8954,0,
8639,8640,8955,0,
8210,8643,8956,0,
8273,0,8957,2,
8651,7595,8958,0,
8652,7500,8959,0,
8657,6683,8960,0,
8658,8226,8961,0,
8659,7602,8962,0,
8661,7603,8963,0,
8662,6690,8964,0,
8663,5484,8965,0,
8665,7610,8966,0,
8668,5965,8967,0,
8669,7617,8968,0,
8671,8446,8969,0,
7573,8320,8970,0,
8673,8245,8971,0,
8671,7043,8972,0,
8674,6713,8973,0,
4098,8676,8974,1,
8974,31,8975,0,
4098,8975,8976,1,
8678,8220,8977,0,
8680,6725,8978,1,
8653,8216,8979,0,
8685,8684,8980,0,
8680,6725,8981,0,
8277,0,8982,2,
8273,8274,8983,0,
8645,7587,8984,0,
8644,8957,8985,0,
8983,0,8986,2,
8273,8982,8987,0,
4099,8978,8988,1,
8988,31,8989,0,
4099,8989,8990,1,
8692,7659,8991,0,
8691,6761,8992,0,
8693,5551,8993,0,
8694,6776,8994,0,
8695,6790,8995,0,
8699,5611,8996,0,
8698,7676,8997,0,
8706,5154,8998,0,
8300,8701,8999,0,
8703,8704,9000,0,
8702,7692,9001,0,
8709,7703,9002,0,
8713,7710,9003,0,
8708,5691,9004,0,
8710,8712,9005,0,
5723,8714,9006,0,
8718,7729,9007,0,
8716,7718,9008,0,
8719,7717,9009,0,
8726,6921,9010,0,
8320,8722,9011,0,
8720,7735,9012,0,
8723,8327,9013,0,
8724,5642,9014,0,
8725,5551,9015,0,
5533,8721,9016,0,
8733,6941,9017,0,
8732,6930,9018,0,
8727,8729,9019,0,
8731,7762,9020,0,
8730,7759,9021,0,
8735,8738,9022,0,
8737,5841,9023,0,
8734,5838,9024,0,
8741,8352,9025,0,
8742,8353,9026,0,
8709,5149,9027,0,
7782,8746,9028,0,
8745,8357,9029,0,
8749,6997,9030,0,
8750,7801,9031,0,
8748,7795,9032,0,
8753,5910,9033,0,
8719,8751,9034,0,
8755,7808,9035,0,
7023,8757,9036,0,
8758,7821,9037,0,
8744,7830,9038,0,
5964,8763,9039,0,
7047,8764,9040,0,
7714,8767,9041,0,
8769,5992,9042,0,
8768,5994,9043,0,
8770,7844,9044,0,
8771,7846,9045,0,
8772,7849,9046,0,
6970,8739,9047,0,
8776,7083,9048,0,
8775,6029,9049,0,
8777,6038,9050,0,
8779,7863,9051,0,
8763,8780,9052,0,
8781,6049,9053,0,
8782,6056,9054,0,
8784,7108,9055,0,
7900,8785,9056,0,
8787,7170,9057,0,
8786,8788,9058,0,
8789,8790,9059,0,
8797,8437,9060,0,
8798,8795,9061,0,
8792,8724,9062,0,
8796,8434,9063,0,
8794,7916,9064,0,
8440,8802,9065,0,
8800,7920,9066,0,
8799,8801,9067,0,
8804,7198,9068,0,
8441,8805,9069,0,
8808,6853,9070,0,
8806,7933,9071,0,
8811,7214,9072,0,
8812,7941,9073,0,
7942,8737,9074,0,
8813,7224,9075,0,
8815,7240,9076,0,
8461,8816,9077,0,
8711,7959,9078,0,
8721,5216,9079,0,
8819,8818,9080,0,
8822,8821,9081,0,
8824,6277,9082,0,
8826,5723,9083,0,
8827,5233,9084,0,
8818,5964,9085,0,
8829,7283,9086,0,
8832,6305,9087,0,
8833,6307,9088,0,
8834,7989,9089,0,
8835,7996,9090,0,
8837,8006,9091,0,
6346,8839,9092,0,
8734,8372,9093,0,
8841,7326,9094,0,
8714,7152,9095,0,
8746,7266,9096,0,
7811,8717,9097,0,
8847,8034,9098,0,
8824,5722,9099,0,
8850,5366,9100,0,
8849,7362,9101,0,
8434,8780,9102,0,
8693,7168,9103,0,
8981,7366,9104,1,
8520,8852,9105,0,
8851,4190,9106,0,
8855,4186,9107,0,
8854,8047,9108,1,
8853,0,9109,2,
8858,0,9110,2,
8857,5404,9111,1,
8860,8054,9112,0,
8868,6450,9113,1,
8854,0,9114,2,
8532,8863,9115,0,
8853,8859,9116,1,
8857,6437,9117,0,
7400,8866,9118,0,
8063,8864,9119,0,
8865,0,9120,2,
8861,0,9121,2,
8868,0,9122,2,
8869,8067,9123,1,
8871,8079,9124,1,
8867,0,9125,2,
8870,8541,9126,0,
8067,8869,9127,0,
8871,0,9128,2,
8872,8873,9129,0,
8876,0,9130,2,
8875,8080,9131,0,
8879,0,9132,2,
8879,8553,9133,1,
8880,0,9134,2,
8890,8093,9135,1,
8877,0,9136,2,
8878,0,9137,2,
8885,8886,9138,0,
8883,0,9139,2,
8555,8884,9140,0,
8884,0,9141,2,
8890,0,9142,2,
8888,0,9143,2,
8094,8893,9144,0,
8892,0,9145,2,
8895,0,9146,2,
8896,8898,9147,1,
8896,0,9148,2,
8556,8883,9149,1,
8898,0,9150,2,
8899,0,9151,2,
8567,8899,9152,1,
8902,0,9153,2,
7439,8904,9154,0,
8796,8423,9155,0,
8905,7460,9156,0,
8579,8828,9157,0,
8906,7451,9158,0,
8912,8129,9159,0,
8911,8748,9160,0,
8909,8131,9161,0,
8910,8130,9162,0,
8704,8494,9163,0,
8908,8128,9164,0,
8914,5846,9165,0,
6531,8915,9166,0,
8433,8916,9167,0,
8917,5951,9168,0,
8135,8918,9169,0,
7950,8819,9170,0,
8923,6549,9171,0,
8924,0,9172,2,
8152,8927,9173,0,
8925,8599,9174,0,
8926,8151,9175,0,
8928,7194,9176,0,
8930,7520,9177,0,
8932,7522,9178,0,
8936,8935,9179,0,
8937,8614,9180,0,
8938,6772,9181,0,
8939,8176,9182,0,
8940,8936,9183,0,
8916,4981,9184,0,
7942,8821,9185,0,
8945,8189,9186,0,
8944,7554,9187,0,
8710,7917,9188,0,
8918,8442,9189,0,
8949,8194,9190,0,
6772,8948,9191,0,
8766,5838,9192,0,
8954,8638,9193,0,
8741,8642,9194,0,
8712,5691,9195,0,
8938,5599,9196,0,
8802,5854,9197,0,
8653,8791,9198,0,
8959,8221,9199,0,
8296,8822,9200,0,
8960,7601,9201,0,
8429,8843,9202,0,
8964,7606,9203,0,
8967,8243,9204,0,
8842,5758,9205,0,
8973,7625,9206,0,
8728,5964,9207,0,
8976,0,9208,2,
7474,8953,9209,0,
8979,8256,9210,0,
8981,7366,9211,0,
9211,8271,9212,0,
8985,0,9213,2,
8992,7668,9214,0,
8991,8288,9215,0,
8993,8696,9216,0,
8995,7681,9217,0,
8994,5598,9218,0,
8996,6814,9219,0,
9001,8711,9220,0,
9000,8999,9221,0,
8998,5676,9222,0,
9006,8717,9223,0,
9007,5480,9224,0,
9009,6918,9225,0,
9014,8340,9226,0,
9013,8334,9227,0,
9010,6923,9228,0,
9012,8728,9229,0,
9015,8339,9230,0,
9016,7757,9231,0,
6922,9011,9232,0,
9017,7774,9233,0,
7775,9020,9234,0,
9023,8355,9235,0,
8361,9028,9236,0,
9029,7787,9237,0,
9031,9030,9238,0,
9032,6999,9239,0,
9033,7806,9240,0,
8991,9034,9241,0,
9035,8372,9242,0,
9037,7823,9243,0,
9038,7832,9244,0,
9040,7048,9245,0,
8766,8994,9246,0,
9041,7840,9247,0,
5603,9042,9248,0,
9044,7847,9249,0,
9046,7850,9250,0,
9047,8403,9251,0,
8288,9048,9252,0,
9049,5221,9253,0,
9050,7097,9254,0,
9052,7102,9255,0,
9058,9059,9256,0,
9056,8793,9257,0,
8791,9022,9258,0,
9057,8435,9259,0,
9062,9064,9260,0,
9063,9060,9261,0,
9065,9066,9262,0,
9069,8809,9263,0,
8807,9068,9264,0,
9071,8810,9265,0,
9061,9070,9266,0,
7221,9072,9267,0,
7950,9073,9268,0,
9074,8453,9269,0,
8814,9075,9270,0,
9076,7955,9271,0,
8992,5854,9272,0,
9078,8468,9273,0,
9077,8466,9274,0,
8820,9080,9275,0,
9079,6274,9276,0,
8825,9081,9277,0,
9082,9083,9278,0,
9086,7904,9279,0,
9087,7294,9280,0,
9073,7793,9281,0,
9088,7296,9282,0,
9091,5764,9283,0,
7320,9093,9284,0,
9092,8498,9285,0,
9094,8017,9286,0,
9008,5481,9287,0,
9030,5854,9288,0,
8506,9095,9289,0,
9031,5503,9290,0,
9097,8513,9291,0,
9055,9054,9292,0,
9100,7363,9293,0,
9105,0,9294,2,
9106,0,9295,2,
9108,4457,9296,1,
9107,4193,9297,0,
9109,8859,9298,0,
8862,9110,9299,0,
9111,0,9300,2,
9112,0,9301,2,
9114,8539,9302,0,
9119,0,9303,2,
4457,9108,9304,0,
9118,0,9305,2,
9121,9120,9306,0,
9116,8065,9307,1,
9115,0,9308,2,
9117,0,9309,2,
9126,8073,9310,0,
8542,9125,9311,0,
9116,0,9312,2,
8543,9124,9313,1,
9122,7412,9314,0,
9131,0,9315,2,
9130,8086,9316,0,
9129,0,9317,2,
9127,0,9318,2,
8543,9124,9319,0,
9128,8551,9320,0,
7425,9135,9321,1,
8881,9137,9322,0,
7423,9134,9323,0,
9123,9115,9324,1,
8885,9136,9325,0,
9132,8074,9326,0,
8889,9139,9327,0,
9141,8891,9328,0,
9140,0,9329,2,
9138,0,9330,2,
7425,9135,9331,0,
9142,8561,9332,0,
9144,0,9333,2,
8901,9151,9334,0,
9148,9150,9335,0,
8903,9153,9336,0,
9154,0,9337,2,
9155,8573,9338,0,
9156,7474,9339,0,
8110,9154,9340,1,
9157,8906,9341,0,
9158,8907,9342,0,
9160,8412,9343,0,
9162,9163,9344,0,
9159,8353,9345,0,
9161,8589,9346,0,
6533,9166,9347,1,
9165,8592,9348,0,
9166,0,9349,2,
8920,9086,9350,0,
9168,5800,9351,0,
8137,9169,9352,0,
9170,8708,9353,0,
9171,7502,9354,0,
9173,8156,9355,0,
9174,8601,9356,0,
9172,8163,9357,0,
9179,8611,9358,0,
9180,8172,9359,0,
9183,7663,9360,0,
9184,5135,9361,0,
8997,5550,9362,0,
9187,8190,9363,0,
9186,8191,9364,0,
9188,7559,9365,0,
9189,6321,9366,0,
9191,5551,9367,0,
9048,8781,9368,0,
9193,8641,9369,0,
9045,8955,9370,0,
8987,8274,9371,0,
8646,9195,9372,0,
9196,5551,9373,0,
9202,7605,9374,0,
9007,7749,9375,0,
9203,6856,9376,0,
8642,9203,9377,0,
9204,8246,9378,0,
8031,8997,9379,0,
8679,9207,9380,0,
9035,6772,9381,0,
9020,8907,9382,0,
8990,0,9383,2,
5485,9072,9384,0,
4093,9104,9385,1,
9385,31,9386,0,
4093,9386,9387,1,
8277,8986,9388,0,
8690,9213,9389,0,
8265,9213,9390,0,
9371,9208,9391,0,
9216,8697,9392,0,
9215,8700,9393,0,
9214,7684,9394,0,
8705,9218,9395,0,
9217,8997,9396,0,
9219,5713,9397,0,
9220,9002,9398,0,
9222,5580,9399,0,
9003,9221,9400,0,
9223,8330,9401,0,
9224,7763,9402,0,
9225,8341,9403,0,
9231,6947,9404,0,
9228,7770,9405,0,
9229,9021,9406,0,
9227,7772,9407,0,
9019,9226,9408,0,
9232,8347,9409,0,
9230,8736,9410,0,
9024,9234,9411,0,
9233,8744,9412,0,
9235,7784,9413,0,
5618,9237,9414,0,
9239,7805,9415,0,
9238,8754,9416,0,
9240,5487,9417,0,
9233,8380,9418,0,
9245,7834,9419,0,
9247,9043,9420,0,
9248,7066,9421,0,
9250,5838,9422,0,
9253,5232,9423,0,
9251,7864,9424,0,
9252,8406,9425,0,
9051,9254,9426,0,
9255,8409,9427,0,
9055,9245,9428,0,
9259,8803,9429,0,
9256,9258,9430,0,
9061,9257,9431,0,
9067,9257,9432,0,
9261,9022,9433,0,
9263,9241,9434,0,
9264,7934,9435,0,
9266,9265,9436,0,
9267,5846,9437,0,
8456,9268,9438,0,
9222,9270,9439,0,
9271,7727,9440,0,
9272,8464,9441,0,
9274,7976,9442,0,
9226,8324,9443,0,
9273,8471,9444,0,
9276,7274,9445,0,
9278,9084,9446,0,
9279,7987,9447,0,
9280,5854,9448,0,
7298,9281,9449,0,
9237,8492,9450,0,
9271,8836,9451,0,
7127,9283,9452,0,
9285,8014,9453,0,
9286,8842,9454,0,
9059,9254,9455,0,
9287,9096,9456,0,
9288,8509,9457,0,
9289,8026,9458,0,
9290,8033,9459,0,
9291,8035,9460,0,
9292,7834,9461,0,
9294,7382,9462,1,
8856,9295,9463,0,
9298,0,9464,2,
9296,9113,9465,1,
9297,0,9466,2,
9294,8071,9467,0,
9123,9308,9468,0,
9296,9113,9469,0,
9297,9303,9470,0,
9307,0,9471,2,
9306,0,9472,2,
9302,0,9473,2,
9305,9309,9474,0,
9304,0,9475,2,
9299,0,9476,2,
8065,9312,9477,0,
9314,0,9478,2,
9311,0,9479,2,
9310,0,9480,2,
9306,9307,9481,0,
8090,9315,9482,0,
9320,0,9483,2,
8882,9317,9484,0,
9319,0,9485,2,
9311,9133,9486,1,
8887,9315,9487,0,
9325,0,9488,2,
9324,0,9489,2,
9323,0,9490,2,
9326,0,9491,2,
9321,9322,9492,1,
9327,0,9493,2,
8877,9330,9494,0,
9322,0,9495,2,
9332,0,9496,2,
9331,0,9497,2,
8897,9333,9498,0,
9335,0,9499,2,
9334,0,9500,2,
8559,9323,9501,1,
9336,0,9502,2,
8110,9337,9503,0,
9338,8582,9504,0,
9340,0,9505,2,
9339,7284,9506,0,
9342,9164,9507,0,
9341,8913,9508,0,
9167,9345,9509,0,
9343,8136,9510,0,
9221,9156,9511,0,
9346,9089,9512,0,
9347,0,9513,2,
9348,8138,9514,0,
6533,9349,9515,0,
9352,8139,9516,0,
9350,9351,9517,0,
9355,8929,9518,0,
9356,8158,9519,0,
9358,8612,9520,0,
9360,8619,9521,0,
9361,6608,9522,0,
9362,8187,9523,0,
9364,9363,9524,0,
9257,7785,9525,0,
9366,7562,9526,0,
9293,7100,9527,0,
9359,8935,9528,0,
9363,5305,9529,0,
9368,7023,9530,0,
9369,8207,9531,0,
7583,9280,9532,0,
9370,6949,9533,0,
9372,8647,9534,0,
9373,9197,9535,0,
7599,9286,9536,0,
8133,9240,9537,0,
8621,9364,9538,0,
9374,8965,9539,0,
9375,8231,9540,0,
9376,8233,9541,0,
9282,8314,9542,0,
9370,5177,9543,0,
9217,5697,9544,0,
7573,9378,9545,0,
9379,9205,9546,0,
7620,9378,9547,0,
9245,8781,9548,0,
9262,8763,9549,0,
9381,8286,9550,0,
9380,8681,9551,0,
8687,9370,9552,0,
9384,8395,9553,0,
8272,9213,9554,0,
9212,0,9555,2,
8976,9371,9556,1,
9371,0,9557,2,
9388,0,9558,2,
31,9555,9559,0,
9393,8305,9560,0,
9392,7696,9561,0,
9394,8707,9562,0,
9395,8715,9563,0,
9397,9004,9564,0,
9398,5798,9565,0,
6916,9400,9566,0,
9399,8329,9567,0,
9403,7769,9568,0,
9410,7778,9569,0,
9409,8740,9570,0,
9406,7703,9571,0,
9022,9404,9572,0,
9405,5854,9573,0,
7779,9408,9574,0,
9407,8743,9575,0,
9412,7780,9576,0,
9413,7790,9577,0,
9414,7798,9578,0,
9416,8371,9579,0,
9415,7807,9580,0,
9417,7814,9581,0,
9242,9407,9582,0,
9036,9404,9583,0,
9418,7825,9584,0,
9419,5305,9585,0,
9420,7069,9586,0,
9249,9421,9587,0,
8774,9422,9588,0,
9425,9423,9589,0,
9424,7101,9590,0,
9426,9053,9591,0,
9427,7870,9592,0,
9429,8743,9593,0,
9430,0,9594,2,
9431,9260,9595,0,
9433,9262,9596,0,
9434,9435,9597,0,
9436,9408,9598,0,
9269,9437,9599,0,
9438,8460,9600,0,
9440,7267,9601,0,
9441,7269,9602,0,
9275,9442,9603,0,
9443,8729,9604,0,
9444,7979,9605,0,
9446,7983,9606,0,
9405,8826,9607,0,
9448,8486,9608,0,
9398,9089,9609,0,
9449,8487,9610,0,
9284,9452,9611,0,
9454,5762,9612,0,
9456,8508,9613,0,
9457,8512,9614,0,
9458,8028,9615,0,
9460,8036,9616,0,
9461,9293,9617,0,
9405,9250,9618,0,
9389,8272,9619,0,
8534,9463,9620,1,
9462,0,9621,2,
9466,9119,9622,1,
9463,0,9623,2,
9465,9299,9624,1,
9301,9464,9625,0,
9467,0,9626,2,
9473,9475,9627,0,
9313,9474,9628,1,
9469,0,9629,2,
9468,0,9630,2,
9471,9472,9631,0,
9470,0,9632,2,
9465,9476,9633,0,
9481,0,9634,2,
9133,9479,9635,0,
9474,0,9636,2,
9477,0,9637,2,
9316,9480,9638,0,
9462,9300,9639,1,
9484,0,9640,2,
9486,0,9641,2,
9482,0,9642,2,
9483,9485,9643,0,
9492,0,9644,2,
9143,9488,9645,0,
9328,9488,9646,0,
8894,9490,9647,0,
9494,0,9648,2,
9321,9495,9649,0,
9145,9493,9650,0,
9496,9497,9651,0,
9484,9324,9652,0,
9498,0,9653,2,
9152,9498,9654,1,
9502,8571,9655,1,
8571,9502,9656,0,
9503,0,9657,2,
9504,8127,9658,0,
9506,7486,9659,0,
9508,9398,9660,0,
9512,9511,9661,0,
9509,9406,9662,0,
9515,0,9663,2,
9516,8141,9664,0,
9517,8140,9665,0,
9514,8808,9666,0,
6894,9519,9667,0,
9518,8770,9668,0,
9520,8170,9669,0,
9521,8182,9670,0,
9522,9042,9671,0,
9524,8948,9672,0,
9526,8197,9673,0,
9527,5454,9674,0,
8208,9522,9675,0,
9530,9529,9676,0,
7945,9531,9677,0,
9533,6660,9678,0,
9391,8990,9679,1,
9534,8215,9680,0,
9435,0,9681,2,
9434,0,9682,2,
9383,9391,9683,0,
9536,9200,9684,0,
9406,8742,9685,0,
9429,8785,9686,0,
9539,8664,9687,0,
8667,9542,9688,0,
8247,9543,9689,0,
9545,8251,9690,0,
9544,8250,9691,0,
9021,9510,9692,0,
9547,7631,9693,0,
9175,9531,9694,0,
9551,8262,9695,0,
9549,9382,9696,0,
9558,9557,9697,0,
9562,7699,9698,0,
9560,7700,9699,0,
9396,9561,9700,0,
9563,7721,9701,0,
9564,7736,9702,0,
9566,9567,9703,0,
9568,8739,9704,0,
9573,9572,9705,0,
9570,9569,9706,0,
9575,9026,9707,0,
8358,9574,9708,0,
9571,5316,9709,0,
7793,9570,9710,0,
9577,5599,9711,0,
9579,7810,9712,0,
9580,9241,9713,0,
9583,8379,9714,0,
9585,9246,9715,0,
9586,9045,9716,0,
9587,8773,9717,0,
9589,9590,9718,0,
9591,8783,9719,0,
8767,9589,9720,0,
9432,9593,9721,0,
9594,9595,9722,1,
9596,0,9723,2,
9595,0,9724,2,
9597,0,9725,2,
4409,9594,9726,0,
4669,9594,9727,0,
9598,0,9728,2,
4504,9594,9729,0,
4667,9594,9730,0,
4673,9594,9731,0,
9599,8817,9732,0,
4506,9594,9733,0,
9600,8467,9734,0,
9602,7978,9735,0,
9601,8823,9736,0,
9605,5550,9737,0,
4666,9594,9738,0,
8828,9604,9739,0,
4505,9594,9740,0,
4407,9594,9741,0,
6278,9594,9742,0,
8482,9606,9743,0,
8830,9580,9744,0,
5348,9594,9745,0,
6295,9594,9746,0,
9605,9241,9747,0,
9607,9282,9748,0,
9610,8000,9749,0,
9570,7081,9750,0,
4413,9594,9751,0,
9611,8501,9752,0,
9613,8027,9753,0,
9614,8029,9754,0,
8725,9615,9755,0,
9569,8722,9756,0,
9616,7891,9757,0,
9617,6031,9758,0,
9102,9618,9759,0,
9697,0,9760,2,
9621,9300,9761,0,
9620,0,9762,2,
9620,8540,9763,1,
8534,9623,9764,0,
9624,0,9765,2,
9625,0,9766,2,
9622,0,9767,2,
9633,0,9768,2,
9631,0,9769,2,
9628,0,9770,2,
9318,9630,9771,0,
9624,9625,9772,1,
9478,9629,9773,0,
9638,0,9774,2,
9627,0,9775,2,
9313,9636,9776,0,
9639,0,9777,2,
9635,0,9778,2,
9643,0,9779,2,
9329,9642,9780,0,
9489,9640,9781,0,
9647,0,9782,2,
9646,0,9783,2,
9650,0,9784,2,
9649,0,9785,2,
9147,9651,9786,1,
9651,0,9787,2,
9152,9653,9788,0,
8565,9650,9789,1,
9654,0,9790,2,
9656,0,9791,2,
9658,9442,9792,0,
9659,8919,9793,0,
9344,9561,9794,0,
9660,9510,9795,0,
9662,9514,9796,0,
9661,0,9797,2,
9664,9665,9798,0,
9657,9663,9799,0,
9347,9663,9800,0,
9666,8147,9801,0,
9658,5487,9802,0,
5546,9616,9803,0,
8019,9669,9804,0,
9670,5722,9805,0,
9606,8621,9806,0,
9615,8620,9807,0,
9671,5763,9808,0,
9577,9051,9809,0,
5642,9670,9810,0,
9672,9525,9811,0,
9665,8830,9812,0,
9673,7799,9813,0,
9674,8403,9814,0,
9617,5195,9815,0,
9675,8209,9816,0,
9532,9677,9817,0,
9678,7586,9818,0,
9679,0,9819,2,
9665,9680,9820,0,
9680,5697,9821,0,
9616,5485,9822,0,
9681,4052,9823,0,
9682,4052,9824,0,
4229,9594,9825,0,
5013,9594,9826,0,
9387,9683,9827,1,
9594,4052,9828,0,
4128,9594,9829,0,
4514,9594,9830,0,
9658,8366,9831,0,
9686,9685,9832,0,
5758,9669,9833,0,
9664,8440,9834,0,
9518,9687,9835,0,
9673,7785,9836,0,
9689,7623,9837,0,
9546,9690,9838,0,
8352,9606,9839,0,
8390,9674,9840,0,
9363,9590,9841,0,
8940,9669,9842,0,
9687,7582,9843,0,
9519,9687,9844,0,
9619,9556,9845,0,
9586,7935,9846,0,
9683,0,9847,2,
9695,8955,9848,0,
9387,9847,9849,0,
9718,9054,9850,0,
9700,9005,9851,0,
9699,9698,9852,0,
9701,9008,9853,0,
9702,7764,9854,0,
9703,7767,9855,0,
9704,9025,9856,0,
9707,9708,9857,0,
9706,9027,9858,0,
9705,9576,9859,0,
9711,9710,9860,0,
8373,9713,9861,0,
9712,7812,9862,0,
9714,8759,9863,0,
9715,8392,9864,0,
9717,8282,9865,0,
9719,7868,9866,0,
9720,7871,9867,0,
9722,0,9868,2,
9430,9721,9869,0,
9594,9724,9870,0,
9721,9723,9871,0,
9723,9721,9872,1,
9721,0,9873,2,
4504,9723,9874,0,
4407,9723,9875,0,
9725,9598,9876,1,
9724,9597,9877,1,
9726,0,9878,2,
4666,9723,9879,0,
4667,9724,9880,0,
4409,9723,9881,0,
9724,9725,9882,0,
9725,9728,9883,0,
4505,9723,9884,0,
4669,9723,9885,0,
9727,0,9886,2,
9729,0,9887,2,
4409,9724,9888,0,
4673,9723,9889,0,
4506,9724,9890,0,
4407,9725,9891,0,
9730,0,9892,2,
4667,9723,9893,0,
4407,9724,9894,0,
9733,0,9895,2,
4506,9725,9896,0,
9439,9732,9897,0,
4673,9724,9898,0,
9731,0,9899,2,
9734,5601,9900,0,
5348,9723,9901,0,
4409,9728,9902,0,
4504,9725,9903,0,
4407,9728,9904,0,
4673,9725,9905,0,
4506,9728,9906,0,
4505,9724,9907,0,
4666,9724,9908,0,
4669,9725,9909,0,
4667,9728,9910,0,
4409,9725,9911,0,
4504,9724,9912,0,
4667,9725,9913,0,
9736,9445,9914,0,
4669,9724,9915,0,
9277,9735,9916,0,
9740,0,9917,2,
9737,9085,9918,0,
9738,0,9919,2,
9739,8478,9920,0,
4673,9728,9921,0,
4506,9723,9922,0,
5348,9724,9923,0,
4505,9725,9924,0,
6295,9723,9925,0,
4504,9728,9926,0,
9742,0,9927,2,
9741,0,9928,2,
4669,9728,9929,0,
4666,9725,9930,0,
6278,9723,9931,0,
9743,9744,9932,0,
5348,9725,9933,0,
6278,9724,9934,0,
9745,0,9935,2,
9746,0,9936,2,
9748,9609,9937,0,
4505,9728,9938,0,
9608,9747,9939,0,
4413,9723,9940,0,
9075,9749,9941,0,
6295,9724,9942,0,
5348,9728,9943,0,
6278,9725,9944,0,
4666,9728,9945,0,
9451,9750,9946,0,
6295,9725,9947,0,
6278,9728,9948,0,
8843,9752,9949,0,
4413,9724,9950,0,
6295,9728,9951,0,
5599,9753,9952,0,
9754,9219,9953,0,
4413,9725,9954,0,
9757,7872,9955,0,
9099,9756,9956,0,
4413,9728,9957,0,
9103,9758,9958,0,
9827,0,9959,2,
9762,8874,9960,0,
9763,9622,9961,0,
9761,0,9962,2,
9765,9766,9963,0,
9764,0,9964,2,
9763,9767,9965,1,
9769,9634,9966,0,
9773,0,9967,2,
9772,0,9968,2,
9771,0,9969,2,
9769,9637,9970,0,
9487,9774,9971,0,
9491,9778,9972,0,
9776,0,9973,2,
9780,9645,9974,0,
9771,9486,9975,0,
9779,9644,9976,1,
9781,0,9977,2,
9779,9644,9978,0,
9146,9782,9979,0,
8900,9784,9980,0,
9786,0,9981,2,
9147,9787,9982,0,
9788,0,9983,2,
9789,0,9984,2,
9792,9507,9985,0,
9794,9793,9986,0,
9661,9795,9987,0,
9796,0,9988,2,
9353,9798,9989,0,
9800,0,9990,2,
9752,5758,9991,0,
9795,0,9992,2,
9735,9175,9993,0,
9734,8492,9994,0,
9802,8604,9995,0,
9803,8735,9996,0,
9796,9795,9997,1,
9804,9359,9998,0,
9805,8184,9999,0,
9807,9806,10000,0,
8600,9753,10001,0,
9810,8468,10002,0,
9811,9190,10003,0,
9528,9812,10004,0,
9699,8953,10005,0,
9701,9292,10006,0,
9814,9049,10007,0,
9367,9813,10008,0,
9815,5284,10009,0,
9717,6367,10010,0,
9817,8956,10011,0,
9819,0,10012,2,
9699,8917,10013,0,
9821,8220,10014,0,
9820,8648,10015,0,
9822,9435,10016,0,
4128,9724,10017,0,
9823,0,10018,2,
4514,9723,10019,0,
9824,0,10020,2,
5013,9723,10021,0,
4514,9724,10022,0,
9825,0,10023,2,
4229,9724,10024,0,
4514,9725,10025,0,
9826,0,10026,2,
4229,9725,10027,0,
4514,9728,10028,0,
5013,9724,10029,0,
9796,9795,10030,0,
4128,9723,10031,0,
9724,4052,10032,0,
9828,0,10033,2,
9829,0,10034,2,
4229,9723,10035,0,
9830,0,10036,2,
9728,4052,10037,0,
4128,9725,10038,0,
9831,8656,10039,0,
4229,9728,10040,0,
5013,9725,10041,0,
9712,5138,10042,0,
9749,5838,10043,0,
9832,8961,10044,0,
4128,9728,10045,0,
5013,9728,10046,0,
8317,9752,10047,0,
9793,9091,10048,0,
9835,8239,10049,0,
8244,9754,10050,0,
9836,9243,10051,0,
8248,9732,10052,0,
9839,9692,10053,0,
9753,5854,10054,0,
9840,6730,10055,0,
9548,9841,10056,0,
9842,9698,10057,0,
9550,9844,10058,0,
9843,8683,10059,0,
9846,9695,10060,0,
9845,9760,10061,0,
9867,9590,10062,0,
9959,10012,10063,0,
10011,9818,10064,0,
9851,8328,10065,0,
9852,7742,10066,0,
9853,9565,10067,0,
9854,9561,10068,0,
9855,0,10069,2,
9856,9709,10070,0,
9859,8747,10071,0,
9236,9858,10072,0,
9857,7792,10073,0,
9860,9578,10074,0,
9861,9581,10075,0,
9582,9862,10076,0,
9243,9863,10077,0,
5798,9863,10078,0,
9864,8395,10079,0,
9865,8398,10080,0,
9850,0,10081,2,
9866,9592,10082,0,
9723,9868,10083,0,
9869,0,10084,2,
9870,0,10085,2,
9872,0,10086,2,
9594,9871,10087,1,
4505,9873,10088,0,
9875,0,10089,2,
4504,9873,10090,0,
9874,0,10091,2,
4506,9873,10092,0,
9877,0,10093,2,
9876,0,10094,2,
5008,9873,10095,0,
4666,9873,10096,0,
9879,0,10097,2,
9880,0,10098,2,
9884,0,10099,2,
9885,0,10100,2,
9882,0,10101,2,
9883,0,10102,2,
4669,9873,10103,0,
9881,0,10104,2,
9894,0,10105,2,
6262,9873,10106,0,
9888,0,10107,2,
9891,0,10108,2,
9890,0,10109,2,
7974,9873,10110,0,
9893,0,10111,2,
9889,0,10112,2,
5351,9873,10113,0,
9896,0,10114,2,
9728,9897,10115,1,
9898,0,10116,2,
9900,6276,10117,0,
9901,0,10118,2,
9902,0,10119,2,
9897,0,10120,2,
9903,0,10121,2,
9904,0,10122,2,
6278,9873,10123,0,
9906,0,10124,2,
9907,0,10125,2,
9905,0,10126,2,
9916,9914,10127,0,
9908,0,10128,2,
9913,0,10129,2,
9910,0,10130,2,
9909,0,10131,2,
9915,0,10132,2,
9912,0,10133,2,
9911,0,10134,2,
9918,9920,10135,0,
4673,9873,10136,0,
9922,0,10137,2,
9921,0,10138,2,
9925,0,10139,2,
6295,9873,10140,0,
9924,0,10141,2,
9926,0,10142,2,
9923,0,10143,2,
9929,0,10144,2,
9932,9447,10145,0,
9931,0,10146,2,
9930,0,10147,2,
4413,9873,10148,0,
9934,0,10149,2,
9933,0,10150,2,
9938,0,10151,2,
9937,8488,10152,0,
9939,9090,10153,0,
9943,0,10154,2,
9944,0,10155,2,
9941,9450,10156,0,
9942,0,10157,2,
9945,0,10158,2,
9946,8496,10159,0,
9948,0,10160,2,
9947,0,10161,2,
5741,9866,10162,0,
9455,9949,10163,0,
9951,0,10164,2,
8031,9914,10165,0,
9952,8482,10166,0,
9956,9955,10167,0,
9759,9958,10168,0,
9960,0,10169,2,
9961,0,10170,2,
9626,9962,10171,0,
9963,0,10172,2,
9965,9627,10173,1,
9965,0,10174,2,
9970,0,10175,2,
9966,0,10176,2,
9769,9968,10177,0,
9641,9969,10178,0,
9971,0,10179,2,
9975,0,10180,2,
9978,0,10181,2,
9972,0,10182,2,
9977,9648,10183,0,
9979,0,10184,2,
9149,9979,10185,1,
9980,0,10186,2,
9982,0,10187,2,
9500,9983,10188,0,
9985,0,10189,2,
9986,0,10190,2,
9987,0,10191,2,
9985,9661,10192,1,
9989,8594,10193,0,
9990,8921,10194,0,
8922,9991,10195,0,
9795,9988,10196,0,
9176,9993,10197,0,
9994,5618,10198,0,
9996,9667,10199,0,
9998,9181,10200,0,
9999,8941,10201,0,
10000,9808,10202,0,
9809,10001,10203,0,
9854,7247,10204,0,
10003,8950,10205,0,
10004,8952,10206,0,
10005,8635,10207,0,
10006,9192,10208,0,
10009,5456,10209,0,
10010,9194,10210,0,
10060,9552,10211,0,
9535,10015,10212,0,
8650,10013,10213,0,
10014,8649,10214,0,
10016,9198,10215,0,
4229,9873,10216,0,
10017,0,10217,2,
10019,0,10218,2,
10021,0,10219,2,
6678,9873,10220,0,
10022,0,10221,2,
10025,0,10222,2,
10024,0,10223,2,
10028,0,10224,2,
10027,0,10225,2,
10029,0,10226,2,
10031,0,10227,2,
10032,0,10228,2,
5013,9873,10229,0,
10035,0,10230,2,
10038,0,10231,2,
10037,0,10232,2,
9684,10039,10233,0,
10041,0,10234,2,
10040,0,10235,2,
10042,5460,10236,0,
10043,9537,10237,0,
10044,8962,10238,0,
10045,0,10239,2,
10046,0,10240,2,
9538,10047,10241,0,
9914,8620,10242,0,
9833,10048,10243,0,
9688,10049,10244,0,
10051,8970,10245,0,
10050,8969,10246,0,
10052,8972,10247,0,
9003,9864,10248,0,
10053,8977,10249,0,
10054,8836,10250,0,
10056,10055,10251,0,
10057,9209,10252,0,
9696,10059,10253,0,
10058,9210,10254,0,
9559,9849,10255,1,
9849,0,10256,2,
10249,8682,10257,0,
10253,8269,10258,0,
10065,8342,10259,0,
9401,10066,10260,0,
10067,9402,10261,0,
10068,8354,10262,0,
10070,7791,10263,0,
10073,0,10264,2,
10071,0,10265,2,
10072,7802,10266,0,
10074,8752,10267,0,
10076,8376,10268,0,
10075,8756,10269,0,
8381,10077,10270,0,
10078,7768,10271,0,
10211,0,10272,2,
10079,5330,10273,0,
9588,10080,10274,0,
10082,9590,10275,0,
9723,10084,10276,0,
10083,10084,10277,0,
4503,10086,10278,0,
4408,10087,10279,0,
10088,0,10280,2,
4408,10086,10281,0,
10093,10094,10282,0,
10092,0,10283,2,
10090,0,10284,2,
4668,10087,10285,0,
9878,10091,10286,0,
10098,9886,10287,0,
4668,10086,10288,0,
10096,0,10289,2,
4158,10095,10290,1,
9892,10100,10291,0,
10101,10102,10292,0,
10103,0,10293,2,
9887,10099,10294,0,
4413,10110,10295,1,
5347,10086,10296,0,
4193,10113,10297,1,
4176,10106,10298,1,
10108,10109,10299,0,
10105,9895,10300,0,
10115,0,10301,2,
10114,10116,10302,0,
9728,10120,10303,0,
10123,0,10304,2,
9603,10117,10305,0,
10119,10121,10306,0,
4407,10120,10307,0,
10124,10126,10308,0,
10130,10131,10309,0,
10134,10133,10310,0,
10129,10132,10311,0,
4503,10087,10312,0,
4409,10120,10313,0,
10135,8831,10314,0,
4506,10120,10315,0,
10127,0,10316,2,
10136,0,10317,2,
4667,10120,10318,0,
5347,10087,10319,0,
9928,10137,10320,0,
10143,9927,10321,0,
10140,0,10322,2,
9935,10146,10323,0,
10145,7992,10324,0,
10150,10149,10325,0,
4673,10120,10326,0,
4504,10120,10327,0,
10148,0,10328,2,
10153,8490,10329,0,
10152,8491,10330,0,
4505,10120,10331,0,
4669,10120,10332,0,
10154,10155,10333,0,
10156,8838,10334,0,
10159,8840,10335,0,
4666,10120,10336,0,
5348,10120,10337,0,
10162,5798,10338,0,
10163,8844,10339,0,
6278,10120,10340,0,
9755,10165,10341,0,
10166,9953,10342,0,
6295,10120,10343,0,
10167,9101,10344,0,
10168,8039,10345,0,
10171,0,10346,2,
9632,10170,10347,0,
9964,10169,10348,0,
9768,10172,10349,0,
10173,9773,10350,1,
10173,9967,10351,0,
10174,9775,10352,0,
10178,0,10353,2,
9772,10175,10354,0,
9972,10176,10355,0,
10177,9637,10356,0,
9974,10179,10357,0,
9785,10181,10358,0,
9628,10171,10359,1,
10182,9634,10360,0,
9149,10184,10361,0,
10185,10186,10362,0,
9984,10186,10363,0,
9499,10187,10364,0,
9501,10188,10365,1,
10188,0,10366,2,
9657,10186,10367,0,
10185,0,10368,2,
10189,9986,10369,1,
9797,10189,10370,0,
10189,10190,10371,0,
10191,9988,10372,0,
10193,8597,10373,0,
10195,9801,10374,0,
9797,10196,10375,1,
10254,8270,10376,0,
9292,10082,10377,0,
10197,9995,10378,0,
10198,9668,10379,0,
10199,8931,10380,0,
10194,7503,10381,0,
4413,10120,10382,0,
10200,9182,10383,0,
10202,8942,10384,0,
10201,8185,10385,0,
10203,8946,10386,0,
10002,10204,10387,0,
10206,8199,10388,0,
10205,0,10389,2,
10208,10007,10390,0,
10008,10207,10391,0,
10210,9816,10392,0,
9676,10209,10393,0,
9245,10062,10394,0,
10213,10214,10395,0,
10212,8958,10396,0,
10215,9199,10397,0,
4676,10086,10398,0,
10216,0,10399,2,
10018,10217,10400,0,
4169,10220,10401,1,
10023,10219,10402,0,
10222,10223,10403,0,
10224,10225,10404,0,
10033,10227,10405,0,
10228,10034,10406,0,
10087,0,10407,2,
4676,10087,10408,0,
10229,0,10409,2,
10036,10230,10410,0,
10232,10231,10411,0,
4514,10120,10412,0,
10233,9201,10413,0,
10235,10234,10414,0,
10120,4052,10415,0,
8660,10236,10416,0,
10238,0,10417,2,
5013,10120,10418,0,
4128,10120,10419,0,
4229,10120,10420,0,
10242,9568,10421,0,
10241,9540,10422,0,
10243,9541,10423,0,
10244,8968,10424,0,
6917,10117,10425,0,
10246,8971,10426,0,
10236,4987,10427,0,
10247,9691,10428,0,
8677,10248,10429,0,
10250,9694,10430,0,
10251,0,10431,2,
9390,10063,10432,0,
10256,9555,10433,0,
10252,8980,10434,0,
10274,8778,10435,0,
10260,9018,10436,0,
10298,4220,10437,1,
10434,8689,10438,0,
10376,0,10439,2,
10259,0,10440,2,
10261,8350,10441,0,
9411,10262,10442,0,
10263,0,10443,2,
10266,10071,10444,0,
10266,0,10445,2,
10265,10263,10446,1,
10264,10267,10447,1,
10267,0,10448,2,
10269,0,10449,2,
10268,7818,10450,0,
10270,9584,10451,0,
10271,8760,10452,0,
10273,5268,10453,0,
10275,9867,10454,0,
10277,0,10455,2,
9722,10276,10456,1,
10279,0,10457,2,
10278,0,10458,2,
10285,0,10459,2,
10281,0,10460,2,
4158,10284,10461,0,
10288,0,10462,2,
10294,10107,10463,0,
4176,10293,10464,0,
10297,4221,10465,1,
10295,4512,10466,1,
10296,0,10467,2,
10302,10122,10468,0,
10298,4176,10469,0,
10303,0,10470,2,
10306,10125,10471,0,
10307,0,10472,2,
10305,0,10473,2,
10120,10305,10474,1,
10295,4413,10475,0,
10297,4193,10476,0,
10312,0,10477,2,
10315,0,10478,2,
10313,0,10479,2,
10314,0,10480,2,
10318,0,10481,2,
10319,0,10482,2,
10316,10314,10483,1,
4506,10316,10484,0,
4407,10316,10485,0,
10327,0,10486,2,
10324,0,10487,2,
10326,0,10488,2,
10330,0,10489,2,
10329,0,10490,2,
4409,10316,10491,0,
10331,0,10492,2,
10332,0,10493,2,
4504,10316,10494,0,
10334,8012,10495,0,
4667,10316,10496,0,
4673,10316,10497,0,
10336,0,10498,2,
10335,9453,10499,0,
10337,0,10500,2,
4505,10316,10501,0,
4669,10316,10502,0,
10338,9612,10503,0,
10339,8511,10504,0,
10340,0,10505,2,
4666,10316,10506,0,
10341,9459,10507,0,
10342,9098,10508,0,
5348,10316,10509,0,
10343,0,10510,2,
10344,0,10511,2,
10345,0,10512,2,
9786,10358,10513,1,
9654,10364,10514,1,
10347,0,10515,2,
9770,10346,10516,0,
9639,10348,10517,1,
10348,0,10518,2,
10349,0,10519,2,
10350,0,10520,2,
10352,0,10521,2,
10351,0,10522,2,
10349,10350,10523,0,
10354,0,10524,2,
10355,0,10525,2,
10356,0,10526,2,
10353,9783,10527,0,
9652,10353,10528,0,
10357,0,10529,2,
10358,0,10530,2,
10361,0,10531,2,
10364,0,10532,2,
10363,0,10533,2,
10365,0,10534,2,
9501,10366,10535,0,
10369,0,10536,2,
10371,0,10537,2,
10370,0,10538,2,
10372,10192,10539,0,
10373,0,10540,2,
9986,10373,10541,1,
10374,9354,10542,0,
10372,10192,10543,1,
10257,0,10544,2,
10378,9177,10545,0,
10379,8933,10546,0,
10380,9178,10547,0,
6278,10316,10548,0,
10259,9855,10549,1,
6295,10316,10550,0,
10071,10266,10551,1,
10383,8618,10552,0,
4413,10316,10553,0,
10385,6367,10554,0,
10384,0,10555,2,
10386,8947,10556,0,
10387,9365,10557,0,
10391,8637,10558,0,
10390,8636,10559,0,
4514,10389,10560,0,
4229,10389,10561,0,
4128,10389,10562,0,
10392,8211,10563,0,
10393,0,10564,2,
10389,4052,10565,0,
5013,10389,10566,0,
10377,0,10567,2,
10275,0,10568,2,
10394,0,10569,2,
5013,10316,10570,0,
10422,8236,10571,0,
4669,10389,10572,0,
4666,10389,10573,0,
10275,10377,10574,1,
5348,10389,10575,0,
6278,10389,10576,0,
6295,10389,10577,0,
10396,0,10578,2,
10395,8654,10579,0,
10397,8655,10580,0,
10398,0,10581,2,
10400,10020,10582,0,
10401,4169,10583,0,
10402,10221,10584,0,
10290,4188,10585,1,
10290,4158,10586,0,
10404,10226,10587,0,
10432,9760,10588,0,
10375,0,10589,2,
4506,10389,10590,0,
4673,10389,10591,0,
4667,10389,10592,0,
4101,10405,10593,1,
4101,10406,10594,1,
10408,0,10595,2,
4101,10407,10596,0,
4169,10401,10597,1,
4101,10411,10598,1,
10412,0,10599,2,
4409,10389,10600,0,
4407,10389,10601,0,
10415,0,10602,2,
10237,10416,10603,0,
4504,10389,10604,0,
4514,10316,10605,0,
10417,10413,10606,1,
10316,4052,10607,0,
4229,10316,10608,0,
10413,10417,10609,0,
10418,0,10610,2,
10420,0,10611,2,
10419,0,10612,2,
10413,0,10613,2,
4505,10389,10614,0,
4128,10316,10615,0,
7741,10385,10616,0,
10421,9377,10617,0,
10423,8966,10618,0,
4413,10389,10619,0,
10424,0,10620,2,
10425,7622,10621,0,
10426,9837,10622,0,
10427,6716,10623,0,
10428,9206,10624,0,
10429,9693,10625,0,
10258,0,10626,2,
10431,10062,10627,1,
10430,8686,10628,0,
10394,4413,10629,0,
10273,5296,10630,0,
10258,10439,10631,0,
4413,10568,10632,0,
10557,8951,10633,0,
10544,10376,10634,1,
9716,10453,10635,0,
10376,10544,10636,0,
4413,10490,10637,0,
10440,10436,10638,1,
10436,0,10639,2,
10069,10440,10640,0,
10442,8359,10641,0,
10441,0,10642,2,
10265,10443,10643,0,
10443,10264,10644,0,
10446,0,10645,2,
10443,10073,10646,1,
10444,0,10647,2,
10447,0,10648,2,
10264,10448,10649,0,
10265,10445,10650,0,
10448,10449,10651,0,
10448,10269,10652,1,
10449,10450,10653,1,
10450,0,10654,2,
10451,8761,10655,0,
10452,8762,10656,0,
10435,0,10657,2,
10435,9850,10658,1,
9428,10454,10659,0,
10456,0,10660,2,
10085,10455,10661,0,
10457,10280,10662,0,
10089,10458,10663,0,
10459,10289,10664,0,
10104,10460,10665,0,
10461,10290,10666,0,
10111,10462,10667,0,
10464,10298,10668,0,
10437,0,10669,2,
10118,10467,10670,0,
10466,0,10671,2,
10465,0,10672,2,
10308,10472,10673,0,
10474,0,10674,2,
10473,10127,10675,1,
10120,10473,10676,0,
4407,10473,10677,0,
10473,10316,10678,0,
10477,10317,10679,0,
10479,10142,10680,0,
10316,10480,10681,0,
10478,10138,10682,0,
10481,10144,10683,0,
10482,10322,10684,0,
4407,10480,10685,0,
10480,10324,10686,1,
4506,10473,10687,0,
10484,0,10688,2,
4673,10473,10689,0,
4409,10473,10690,0,
10483,0,10691,2,
10485,0,10692,2,
10480,10487,10693,0,
4504,10473,10694,0,
4667,10473,10695,0,
10491,0,10696,2,
10489,10324,10697,1,
10489,10490,10698,0,
10489,10487,10699,0,
4409,10480,10700,0,
4505,10473,10701,0,
4506,10480,10702,0,
4407,10487,10703,0,
10494,0,10704,2,
10489,10329,10705,1,
10490,10495,10706,1,
4669,10473,10707,0,
10497,0,10708,2,
10496,0,10709,2,
10495,0,10710,2,
10500,10160,10711,0,
4407,10489,10712,0,
4506,10487,10713,0,
4409,10487,10714,0,
4673,10480,10715,0,
4504,10480,10716,0,
4667,10480,10717,0,
10499,0,10718,2,
4409,10490,10719,0,
10501,0,10720,2,
4505,10487,10721,0,
4504,10489,10722,0,
4409,10489,10723,0,
4505,10480,10724,0,
4504,10487,10725,0,
10502,0,10726,2,
4666,10473,10727,0,
10503,8845,10728,0,
5348,10473,10729,0,
4504,10490,10730,0,
4505,10489,10731,0,
10504,0,10732,2,
4407,10490,10733,0,
4506,10489,10734,0,
4673,10487,10735,0,
4505,10490,10736,0,
4669,10480,10737,0,
4667,10487,10738,0,
10507,8848,10739,0,
10506,0,10740,2,
10508,8516,10741,0,
4506,10490,10742,0,
6278,10473,10743,0,
4673,10489,10744,0,
4666,10480,10745,0,
4669,10487,10746,0,
4667,10489,10747,0,
10509,0,10748,2,
4673,10490,10749,0,
4514,10511,10750,0,
10511,10345,10751,1,
4229,10511,10752,0,
4514,10512,10753,0,
10439,10258,10754,1,
10516,0,10755,2,
10517,10515,10756,0,
9777,10518,10757,0,
10520,10519,10758,0,
10517,10347,10759,1,
10521,10522,10760,0,
10523,0,10761,2,
10180,10526,10762,0,
10527,10183,10763,0,
10528,0,10764,2,
9981,10530,10765,0,
10513,0,10766,2,
10362,10531,10767,0,
9790,10532,10768,0,
10535,0,10769,2,
10185,10531,10770,0,
10192,10536,10771,0,
10538,10537,10772,0,
10539,0,10773,2,
10190,10540,10774,0,
10540,10542,10775,1,
10542,0,10776,2,
10545,0,10777,2,
10546,8934,10778,0,
10547,0,10779,2,
10436,10259,10780,1,
10780,9855,10781,0,
10436,10781,10782,1,
5348,10480,10783,0,
6295,10473,10784,0,
10548,0,10785,2,
4667,10490,10786,0,
4669,10489,10787,0,
4666,10487,10788,0,
6278,10480,10789,0,
5348,10487,10790,0,
10550,0,10791,2,
4666,10489,10792,0,
4669,10490,10793,0,
6278,10487,10794,0,
10512,10552,10795,1,
6295,10480,10796,0,
4413,10473,10797,0,
5348,10489,10798,0,
4666,10490,10799,0,
10552,0,10800,2,
6295,10487,10801,0,
5348,10490,10802,0,
6278,10489,10803,0,
10511,10512,10804,0,
10554,9185,10805,0,
4413,10480,10806,0,
6295,10489,10807,0,
6278,10490,10808,0,
4409,10511,10809,0,
4413,10487,10810,0,
6295,10490,10811,0,
4229,10512,10812,0,
4504,10512,10813,0,
5013,10511,10814,0,
4504,10511,10815,0,
4409,10512,10816,0,
4505,10511,10817,0,
4407,10511,10818,0,
10556,0,10819,2,
4229,10555,10820,0,
5013,10512,10821,0,
4514,10555,10822,0,
4505,10512,10823,0,
4409,10555,10824,0,
4413,10489,10825,0,
4506,10511,10826,0,
4407,10512,10827,0,
4504,10555,10828,0,
5013,10555,10829,0,
10389,10559,10830,1,
10558,0,10831,2,
10388,10558,10832,0,
10559,0,10833,2,
10560,0,10834,2,
4505,10555,10835,0,
10561,0,10836,2,
10562,0,10837,2,
10564,4052,10838,0,
10563,0,10839,2,
10565,0,10840,2,
4514,10564,10841,0,
10566,0,10842,2,
10564,10275,10843,1,
10567,4052,10844,0,
4128,10568,10845,0,
4229,10564,10846,0,
10568,4052,10847,0,
4514,10568,10848,0,
4128,10564,10849,0,
10569,4052,10850,0,
4128,10567,10851,0,
4514,10487,10852,0,
4229,10480,10853,0,
10570,0,10854,2,
4413,10555,10855,0,
6295,10569,10856,0,
10628,8688,10857,0,
9848,10630,10858,0,
6278,10511,10859,0,
5348,10512,10860,0,
6278,10512,10861,0,
6295,10511,10862,0,
4413,10511,10863,0,
6278,10555,10864,0,
4413,10512,10865,0,
10572,0,10866,2,
6295,10555,10867,0,
10564,10568,10868,0,
4667,10564,10869,0,
10573,0,10870,2,
10575,0,10871,2,
10576,0,10872,2,
4673,10567,10873,0,
4669,10564,10874,0,
4667,10568,10875,0,
4506,10569,10876,0,
5348,10564,10877,0,
4669,10568,10878,0,
4667,10567,10879,0,
4666,10564,10880,0,
10577,0,10881,2,
4669,10567,10882,0,
4673,10569,10883,0,
4666,10568,10884,0,
4667,10569,10885,0,
5348,10568,10886,0,
6278,10564,10887,0,
4666,10567,10888,0,
4669,10569,10889,0,
10578,10579,10890,1,
10579,0,10891,2,
10579,10578,10892,0,
10399,10581,10893,0,
4101,10582,10894,1,
10585,0,10895,2,
10626,10438,10896,1,
10438,0,10897,2,
10514,10513,10898,1,
4666,10511,10899,0,
4669,10512,10900,0,
4741,4127,10901,1,
10901,10504,10902,0,
4741,10902,10903,1,
5348,10511,10904,0,
4669,10555,10905,0,
10590,0,10906,2,
4666,10555,10907,0,
6295,10512,10908,0,
5348,10555,10909,0,
4407,10564,10910,0,
10591,0,10911,2,
10592,0,10912,2,
4667,10511,10913,0,
4506,10512,10914,0,
4673,10511,10915,0,
10593,0,10916,2,
10594,0,10917,2,
4667,10512,10918,0,
4669,10511,10919,0,
4407,10555,10920,0,
10595,10409,10921,0,
4673,10512,10922,0,
4407,10567,10923,0,
4506,10568,10924,0,
4506,10555,10925,0,
4506,10564,10926,0,
4407,10568,10927,0,
4673,10564,10928,0,
4505,10567,10929,0,
10598,0,10930,2,
4673,10568,10931,0,
4504,10569,10932,0,
10600,0,10933,2,
4506,10567,10934,0,
4407,10569,10935,0,
4666,10512,10936,0,
4667,10555,10937,0,
10414,10599,10938,0,
4505,10569,10939,0,
4673,10555,10940,0,
10602,10239,10941,0,
10603,8963,10942,0,
4229,10473,10943,0,
10601,0,10944,2,
10604,0,10945,2,
4128,10473,10946,0,
10473,4052,10947,0,
5013,10473,10948,0,
4514,10480,10949,0,
10605,0,10950,2,
4514,10473,10951,0,
10609,0,10952,2,
10608,0,10953,2,
10607,0,10954,2,
4229,10487,10955,0,
5013,10564,10956,0,
4514,10567,10957,0,
4229,10568,10958,0,
4409,10564,10959,0,
5013,10480,10960,0,
4514,10489,10961,0,
10614,0,10962,2,
10480,4052,10963,0,
10615,0,10964,2,
4229,10567,10965,0,
5013,10568,10966,0,
4128,10569,10967,0,
4514,10569,10968,0,
10616,9834,10969,0,
10617,8666,10970,0,
4409,10568,10971,0,
4504,10564,10972,0,
10618,0,10973,2,
10619,0,10974,2,
4409,10569,10975,0,
4504,10567,10976,0,
5348,10567,10977,0,
4128,10480,10978,0,
6278,10568,10979,0,
4505,10568,10980,0,
10487,4052,10981,0,
6295,10564,10982,0,
4229,10489,10983,0,
5013,10487,10984,0,
5013,10567,10985,0,
4514,10490,10986,0,
4229,10569,10987,0,
10490,4052,10988,0,
4128,10489,10989,0,
4504,10568,10990,0,
4505,10564,10991,0,
4409,10567,10992,0,
10571,0,10993,2,
10245,10621,10994,0,
10620,10571,10995,1,
4128,10487,10996,0,
5348,10569,10997,0,
6278,10567,10998,0,
10489,4052,10999,0,
4666,10569,11000,0,
6295,10568,11001,0,
5013,10489,11002,0,
4229,10490,11003,0,
10571,10620,11004,0,
10623,7626,11005,0,
5013,10569,11006,0,
4128,10490,11007,0,
5013,10490,11008,0,
4128,10512,11009,0,
10555,4052,11010,0,
4128,10555,11011,0,
10512,4052,11012,0,
4128,10511,11013,0,
4413,10564,11014,0,
10624,0,11015,2,
6295,10567,11016,0,
6278,10569,11017,0,
10511,4052,11018,0,
10625,8259,11019,0,
10580,0,11020,2,
4413,10567,11021,0,
10438,10626,11022,0,
10061,10627,11023,0,
10627,0,11024,2,
10631,0,11025,2,
11019,0,11026,2,
11020,10618,11027,1,
10431,10858,11028,1,
10636,0,11029,2,
10639,10441,11030,1,
10638,0,11031,2,
10641,0,11032,2,
10639,10642,11033,0,
10643,0,11034,2,
10644,0,11035,2,
10445,10641,11036,1,
10646,0,11037,2,
10647,10645,11038,0,
10649,0,11039,2,
10651,0,11040,2,
10653,0,11041,2,
10449,10654,11042,0,
10450,10655,11043,1,
7043,10656,11044,0,
10655,0,11045,2,
10635,0,11046,2,
10211,10635,11047,1,
10635,10435,11048,1,
10657,10081,11049,0,
10659,0,11050,2,
4668,10660,11051,0,
10661,0,11052,2,
10662,10286,11053,0,
4503,10660,11054,0,
10663,10283,11055,0,
4408,10660,11056,0,
10666,10665,11057,0,
10291,10664,11058,0,
10667,10293,11059,0,
10668,10667,11060,0,
10670,10304,11061,0,
10675,0,11062,2,
5347,10660,11063,0,
10301,10674,11064,0,
10676,0,11065,2,
10678,0,11066,2,
10677,0,11067,2,
10320,10679,11068,0,
10681,0,11069,2,
10323,10684,11070,0,
10685,0,11071,2,
10686,0,11072,2,
10687,0,11073,2,
10690,0,11074,2,
10689,0,11075,2,
10693,0,11076,2,
10695,0,11077,2,
10694,0,11078,2,
10701,0,11079,2,
10697,0,11080,2,
10698,0,11081,2,
10699,0,11082,2,
10700,0,11083,2,
10703,0,11084,2,
10702,0,11085,2,
10705,0,11086,2,
10707,0,11087,2,
10706,0,11088,2,
10710,10499,11089,1,
10490,10710,11090,0,
10713,0,11091,2,
10712,0,11092,2,
10716,0,11093,2,
10714,0,11094,2,
10715,0,11095,2,
10710,10718,11096,0,
10717,0,11097,2,
10719,0,11098,2,
10722,0,11099,2,
10725,0,11100,2,
10724,0,11101,2,
10727,0,11102,2,
10723,0,11103,2,
10721,0,11104,2,
10731,0,11105,2,
10730,0,11106,2,
4409,10710,11107,0,
10729,0,11108,2,
10728,8846,11109,0,
4409,10718,11110,0,
10734,0,11111,2,
10718,10504,11112,1,
4504,10710,11113,0,
10733,0,11114,2,
10736,0,11115,2,
10735,0,11116,2,
10718,10732,11117,0,
10738,0,11118,2,
10737,0,11119,2,
4504,10718,11120,0,
4505,10710,11121,0,
4409,10732,11122,0,
10739,0,11123,2,
4407,10710,11124,0,
10741,0,11125,2,
10742,0,11126,2,
10743,0,11127,2,
10744,0,11128,2,
10746,0,11129,2,
10747,0,11130,2,
10745,0,11131,2,
4504,10732,11132,0,
4505,10718,11133,0,
4506,10710,11134,0,
4407,10718,11135,0,
10749,0,11136,2,
10750,0,11137,2,
4505,10732,11138,0,
10751,0,11139,2,
10753,0,11140,2,
10752,0,11141,2,
10632,0,11142,2,
10756,0,11143,2,
9973,10755,11144,0,
10757,0,11145,2,
10758,0,11146,2,
10760,10759,11147,0,
10525,10761,11148,0,
9772,10761,11149,0,
10759,0,11150,2,
10760,0,11151,2,
10763,10529,11152,0,
10766,9786,11153,0,
10765,0,11154,2,
10767,0,11155,2,
10768,10534,11156,0,
10770,0,11157,2,
10771,10372,11158,0,
10538,10773,11159,0,
10774,0,11160,2,
10777,10542,11161,1,
10775,0,11162,2,
10778,0,11163,2,
10540,10776,11164,0,
10777,10776,11165,0,
10779,9855,11166,1,
10779,10069,11167,0,
10440,10639,11168,0,
10642,10641,11169,1,
10782,0,11170,2,
10784,0,11171,2,
10783,0,11172,2,
10640,0,11173,2,
10786,0,11174,2,
10787,0,11175,2,
10788,0,11176,2,
10790,0,11177,2,
10789,0,11178,2,
4667,10710,11179,0,
10793,0,11180,2,
10792,0,11181,2,
10650,0,11182,2,
10795,0,11183,2,
10794,0,11184,2,
10798,0,11185,2,
10796,0,11186,2,
4669,10710,11187,0,
4667,10718,11188,0,
10799,0,11189,2,
4673,10710,11190,0,
4506,10718,11191,0,
4407,10732,11192,0,
10512,10800,11193,0,
10804,0,11194,2,
10803,0,11195,2,
10802,0,11196,2,
10801,0,11197,2,
4506,10732,11198,0,
4673,10718,11199,0,
4673,10732,11200,0,
4666,10710,11201,0,
4669,10718,11202,0,
4667,10732,11203,0,
10800,10384,11204,1,
10805,9523,11205,0,
10800,10555,11206,0,
5348,10710,11207,0,
10808,0,11208,2,
10652,0,11209,2,
10807,0,11210,2,
5013,10732,11211,0,
10809,0,11212,2,
4669,10732,11213,0,
4666,10718,11214,0,
5348,10718,11215,0,
6278,10710,11216,0,
4409,10800,11217,0,
4514,10800,11218,0,
4666,10732,11219,0,
10814,0,11220,2,
10812,0,11221,2,
10816,0,11222,2,
10815,0,11223,2,
10817,0,11224,2,
10811,0,11225,2,
10813,0,11226,2,
10818,0,11227,2,
5013,10800,11228,0,
4229,10800,11229,0,
10822,0,11230,2,
10821,0,11231,2,
4504,10800,11232,0,
10820,0,11233,2,
10819,10205,11234,1,
10633,0,11235,2,
10824,0,11236,2,
10823,0,11237,2,
10819,10389,11238,0,
10826,0,11239,2,
10827,0,11240,2,
4505,10800,11241,0,
4514,10819,11242,0,
10828,0,11243,2,
10829,0,11244,2,
10830,0,11245,2,
4229,10819,11246,0,
4514,10833,11247,0,
5013,10819,11248,0,
4409,10819,11249,0,
10389,10833,11250,0,
10833,4052,11251,0,
10835,0,11252,2,
10833,10393,11253,1,
4128,10833,11254,0,
4128,10819,11255,0,
10838,0,11256,2,
10833,10564,11257,0,
4229,10833,11258,0,
10819,4052,11259,0,
10841,0,11260,2,
5013,10833,11261,0,
10844,0,11262,2,
10845,0,11263,2,
10849,0,11264,2,
10848,0,11265,2,
10846,0,11266,2,
10847,0,11267,2,
10851,0,11268,2,
10850,0,11269,2,
10853,0,11270,2,
10852,0,11271,2,
10856,0,11272,2,
11021,0,11273,2,
10859,0,11274,2,
10860,0,11275,2,
4741,4127,11276,1,
11276,10739,11277,0,
4741,11277,11278,1,
5348,10800,11279,0,
10861,0,11280,2,
10862,0,11281,2,
10863,0,11282,2,
6295,10800,11283,0,
4666,10819,11284,0,
10864,0,11285,2,
4667,10833,11286,0,
5348,10819,11287,0,
10867,0,11288,2,
10843,0,11289,2,
4158,10865,11290,1,
10865,0,11291,2,
4413,10800,11292,0,
4669,10833,11293,0,
10868,0,11294,2,
10869,0,11295,2,
6278,10819,11296,0,
10865,4188,11297,0,
5348,10833,11298,0,
6295,10819,11299,0,
10855,0,11300,2,
4666,10833,11301,0,
10874,0,11302,2,
10873,0,11303,2,
10875,0,11304,2,
6278,10833,11305,0,
10880,0,11306,2,
10877,0,11307,2,
10876,0,11308,2,
10878,0,11309,2,
10879,0,11310,2,
4413,10819,11311,0,
10885,0,11312,2,
10882,0,11313,2,
10884,0,11314,2,
10883,0,11315,2,
6295,10833,11316,0,
10887,0,11317,2,
10886,0,11318,2,
10888,0,11319,2,
10889,0,11320,2,
10891,10580,11321,1,
10892,0,11322,2,
10893,10218,11323,0,
4676,10660,11324,0,
10894,0,11325,2,
10665,10284,11326,0,
10857,10438,11327,1,
6278,10732,11328,0,
6278,10718,11329,0,
6295,10710,11330,0,
5348,10732,11331,0,
6295,10718,11332,0,
6295,10732,11333,0,
4413,10710,11334,0,
4413,10718,11335,0,
4667,10800,11336,0,
10899,0,11337,2,
10903,5087,11338,0,
10900,0,11339,2,
10904,0,11340,2,
4531,10732,11341,0,
4666,10800,11342,0,
10905,0,11343,2,
4673,10819,11344,0,
4407,10833,11345,0,
4667,10819,11346,0,
10907,0,11347,2,
6278,10800,11348,0,
4506,10833,11349,0,
10908,0,11350,2,
10909,0,11351,2,
10910,0,11352,2,
4669,10819,11353,0,
4407,10800,11354,0,
10915,0,11355,2,
10914,0,11356,2,
10913,0,11357,2,
9721,10916,11358,0,
4506,10800,11359,0,
10410,10921,11360,0,
10920,0,11361,2,
10922,0,11362,2,
10918,0,11363,2,
10916,10597,11364,0,
10919,0,11365,2,
4673,10800,11366,0,
4673,10833,11367,0,
10924,0,11368,2,
10923,0,11369,2,
10928,0,11370,2,
4504,10819,11371,0,
10926,0,11372,2,
10927,0,11373,2,
10925,0,11374,2,
10929,0,11375,2,
4669,10800,11376,0,
10936,0,11377,2,
4506,10819,11378,0,
10937,0,11379,2,
10939,0,11380,2,
10931,0,11381,2,
4407,10819,11382,0,
10935,0,11383,2,
10932,0,11384,2,
10934,0,11385,2,
4409,10833,11386,0,
10940,0,11387,2,
4505,10819,11388,0,
10943,0,11389,2,
10942,0,11390,2,
4101,10941,11391,1,
10951,0,11392,2,
10610,10950,11393,0,
10948,0,11394,2,
10949,0,11395,2,
10946,0,11396,2,
10947,0,11397,2,
4504,10833,11398,0,
10959,0,11399,2,
10960,0,11400,2,
10958,0,11401,2,
10957,0,11402,2,
10961,0,11403,2,
10956,0,11404,2,
10955,0,11405,2,
10963,0,11406,2,
10968,0,11407,2,
10967,0,11408,2,
10965,0,11409,2,
10966,0,11410,2,
4505,10833,11411,0,
10970,8240,11412,0,
10580,10891,11413,0,
10969,8670,11414,0,
10972,0,11415,2,
10971,0,11416,2,
10977,0,11417,2,
4413,10833,11418,0,
10983,0,11419,2,
10986,0,11420,2,
10984,0,11421,2,
10985,0,11422,2,
10976,0,11423,2,
10975,0,11424,2,
10980,0,11425,2,
10981,0,11426,2,
10979,0,11427,2,
10978,0,11428,2,
10982,0,11429,2,
10991,0,11430,2,
10992,0,11431,2,
10990,0,11432,2,
10987,0,11433,2,
10988,0,11434,2,
10989,0,11435,2,
4514,10710,11436,0,
11001,0,11437,2,
10996,0,11438,2,
10998,0,11439,2,
11000,0,11440,2,
10994,8675,11441,0,
4128,10710,11442,0,
10718,4052,11443,0,
10999,0,11444,2,
10997,0,11445,2,
11003,0,11446,2,
11002,0,11447,2,
11004,0,11448,2,
5013,10718,11449,0,
4229,10732,11450,0,
10710,4052,11451,0,
4229,10710,11452,0,
9838,11005,11453,0,
4514,10718,11454,0,
10800,4052,11455,0,
4128,10800,11456,0,
11013,0,11457,2,
11012,0,11458,2,
11011,0,11459,2,
11010,0,11460,2,
11009,0,11461,2,
11007,0,11462,2,
11008,0,11463,2,
11006,0,11464,2,
4514,10732,11465,0,
5013,10710,11466,0,
4229,10718,11467,0,
11016,0,11468,2,
10768,0,11469,2,
11017,0,11470,2,
4128,10732,11471,0,
4128,10718,11472,0,
10732,4052,11473,0,
10656,5762,11474,0,
11018,0,11475,2,
10858,0,11476,2,
10632,10629,11477,1,
10618,11020,11478,0,
10857,0,11479,2,
11022,0,11480,2,
10637,0,11481,2,
11273,10632,11482,1,
10622,11441,11483,1,
10640,11031,11484,0,
11030,0,11485,2,
11033,0,11486,2,
10642,11032,11487,0,
11034,11035,11488,0,
11036,0,11489,2,
11038,11037,11490,0,
10445,11032,11491,0,
10652,11040,11492,0,
11042,0,11493,2,
9039,11044,11494,0,
10654,11045,11495,0,
10272,11046,11496,0,
11046,10657,11497,0,
11049,0,11498,2,
11052,10093,11499,1,
11052,10093,11500,0,
11051,0,11501,2,
10282,11052,11502,0,
4193,11055,11503,1,
11054,0,11504,2,
4158,11053,11505,1,
11056,0,11506,2,
4176,11058,11507,1,
4176,11059,11508,1,
4413,11061,11509,1,
11063,0,11510,2,
10676,11062,11511,0,
10674,11062,11512,0,
10470,11065,11513,0,
10682,11067,11514,0,
4193,11068,11515,1,
10483,11069,11516,0,
11066,11069,11517,0,
4413,11070,11518,1,
11071,10688,11519,0,
10692,11073,11520,0,
11074,10486,11521,0,
11077,10493,11522,0,
10696,11078,11523,0,
11082,11081,11524,0,
11083,10704,11525,0,
11080,11086,11526,0,
11084,11085,11527,0,
10709,11087,11528,0,
11089,0,11529,2,
11090,0,11530,2,
11092,11091,11531,0,
11094,11093,11532,0,
11096,0,11533,2,
11097,10726,11534,0,
11103,11100,11535,0,
11098,11099,11536,0,
10732,11109,11537,1,
11108,10505,11538,0,
11107,0,11539,2,
11105,11106,11540,0,
11110,0,11541,2,
11113,0,11542,2,
11114,11111,11543,0,
11109,0,11544,2,
11112,0,11545,2,
11117,0,11546,2,
11118,11119,11547,0,
11120,0,11548,2,
11122,0,11549,2,
11123,10741,11550,1,
11124,0,11551,2,
11121,0,11552,2,
11123,11125,11553,0,
10748,11127,11554,0,
11130,11129,11555,0,
11132,0,11556,2,
11125,10344,11557,1,
11133,0,11558,2,
11125,10511,11559,0,
11135,0,11560,2,
11134,0,11561,2,
4514,11125,11562,0,
5013,11123,11563,0,
4229,11125,11564,0,
4229,11123,11565,0,
4409,11123,11566,0,
11138,0,11567,2,
5013,11125,11568,0,
11021,11142,11569,0,
9976,11144,11570,1,
11145,11143,11571,0,
10524,11146,11572,0,
11150,11151,11573,0,
11144,0,11574,2,
10762,11148,11575,0,
11149,10360,11576,0,
11147,0,11577,2,
11152,0,11578,2,
11153,0,11579,2,
10533,11155,11580,0,
11156,0,11581,2,
9789,11157,11582,0,
11158,0,11583,2,
10369,11159,11584,1,
11161,0,11585,2,
11163,10779,11586,0,
11163,10777,11587,0,
11163,10545,11588,1,
11163,10547,11589,1,
11165,0,11590,2,
11164,0,11591,2,
11166,0,11592,2,
11168,0,11593,2,
11167,0,11594,2,
11169,0,11595,2,
11172,10785,11596,0,
11174,11175,11597,0,
11177,11178,11598,0,
11179,0,11599,2,
11139,11183,11600,0,
11185,11184,11601,0,
11188,0,11602,2,
11187,0,11603,2,
11193,0,11604,2,
11190,0,11605,2,
11191,0,11606,2,
11192,0,11607,2,
11196,11195,11608,0,
4407,11123,11609,0,
4409,11125,11610,0,
4504,11123,11611,0,
11198,0,11612,2,
11199,0,11613,2,
11200,0,11614,2,
11201,0,11615,2,
11204,0,11616,2,
11202,0,11617,2,
11203,0,11618,2,
11205,8943,11619,0,
11206,0,11620,2,
11207,0,11621,2,
4407,11125,11622,0,
4506,11123,11623,0,
4504,11125,11624,0,
4505,11123,11625,0,
4514,11123,11626,0,
11211,0,11627,2,
11214,0,11628,2,
11213,0,11629,2,
4505,11125,11630,0,
4506,11125,11631,0,
4673,11123,11632,0,
4667,11123,11633,0,
11218,0,11634,2,
11216,0,11635,2,
11215,0,11636,2,
11217,0,11637,2,
11222,11223,11638,0,
11219,0,11639,2,
11229,0,11640,2,
11228,0,11641,2,
11232,0,11642,2,
4673,11125,11643,0,
11230,11231,11644,0,
11234,0,11645,2,
11240,11239,11646,0,
11238,0,11647,2,
11242,0,11648,2,
11241,0,11649,2,
11246,0,11650,2,
11248,0,11651,2,
11247,0,11652,2,
11251,0,11653,2,
11250,0,11654,2,
11249,0,11655,2,
11253,0,11656,2,
11254,0,11657,2,
11255,0,11658,2,
11257,0,11659,2,
11259,0,11660,2,
11258,0,11661,2,
10081,11050,11662,0,
10842,11260,11663,0,
11261,0,11664,2,
11265,11266,11665,0,
11267,11264,11666,0,
11262,11263,11667,0,
11269,11268,11668,0,
11270,11271,11669,0,
11476,11019,11670,1,
6295,11125,11671,0,
11275,11274,11672,0,
11278,5087,11673,0,
11279,0,11674,2,
4531,11123,11675,0,
4413,11125,11676,0,
4582,11125,11677,0,
11283,0,11678,2,
11282,10865,11679,1,
11286,0,11680,2,
11284,0,11681,2,
11287,0,11682,2,
11290,11292,11683,1,
10863,11291,11684,0,
11293,0,11685,2,
11290,0,11686,2,
11296,0,11687,2,
11299,0,11688,2,
11298,0,11689,2,
11297,0,11690,2,
11301,0,11691,2,
11305,0,11692,2,
11304,11302,11693,0,
11310,11309,11694,0,
11311,0,11695,2,
11313,11312,11696,0,
11316,0,11697,2,
11318,11317,11698,0,
4169,11323,11699,1,
11324,0,11700,2,
4158,11326,11701,1,
10897,11479,11702,0,
11478,0,11703,2,
11331,0,11704,2,
11328,0,11705,2,
11329,0,11706,2,
11332,0,11707,2,
11330,0,11708,2,
5348,11123,11709,0,
11333,0,11710,2,
6278,11123,11711,0,
5348,11125,11712,0,
11336,0,11713,2,
6278,11125,11714,0,
11338,0,11715,2,
6295,11123,11716,0,
4741,4127,11717,1,
11717,11109,11718,0,
4741,11718,11719,1,
11341,0,11720,2,
11342,0,11721,2,
11344,0,11722,2,
11345,0,11723,2,
4669,11123,11724,0,
4667,11125,11725,0,
11346,0,11726,2,
11348,0,11727,2,
11349,0,11728,2,
11353,0,11729,2,
4669,11125,11730,0,
4666,11123,11731,0,
11354,0,11732,2,
4666,11125,11733,0,
11358,10596,11734,0,
11359,0,11735,2,
11364,0,11736,2,
4169,11360,11737,1,
11363,11365,11738,0,
11366,0,11739,2,
11367,0,11740,2,
11371,0,11741,2,
11373,11372,11742,0,
11369,11368,11743,0,
11376,0,11744,2,
11385,11383,11745,0,
11382,0,11746,2,
11378,0,11747,2,
11386,0,11748,2,
11388,0,11749,2,
11390,10413,11750,1,
11391,0,11751,2,
10954,11396,11752,0,
11397,10612,11753,0,
11395,11394,11754,0,
10240,11392,11755,0,
11398,0,11756,2,
11390,10613,11757,0,
11402,11404,11758,0,
11403,11400,11759,0,
11311,4221,11760,0,
11406,10964,11761,0,
11410,11409,11762,0,
4101,11408,11763,0,
11413,0,11764,2,
11411,0,11765,2,
11414,8672,11766,0,
10973,11412,11767,1,
11416,11415,11768,0,
11412,10973,11769,0,
11423,11424,11770,0,
11421,11420,11771,0,
11417,11427,11772,0,
10974,11418,11773,1,
11426,11428,11774,0,
11431,11432,11775,0,
11434,11435,11776,0,
11436,0,11777,2,
11439,11445,11778,0,
11441,10622,11779,0,
11443,0,11780,2,
11442,0,11781,2,
11444,11438,11782,0,
11418,0,11783,2,
11449,0,11784,2,
11450,0,11785,2,
11456,0,11786,2,
11455,0,11787,2,
11451,0,11788,2,
11454,0,11789,2,
11452,0,11790,2,
11015,11441,11791,1,
11458,11457,11792,0,
11441,11015,11793,0,
10578,11453,11794,1,
11467,0,11795,2,
11465,0,11796,2,
11466,0,11797,2,
11125,4052,11798,0,
4128,11125,11799,0,
4128,11123,11800,0,
11453,0,11801,2,
11412,0,11802,2,
11473,0,11803,2,
11472,0,11804,2,
11471,0,11805,2,
11418,4220,11806,0,
11123,4052,11807,0,
10251,11476,11808,0,
11474,8258,11809,0,
11028,0,11810,2,
10858,11026,11811,0,
11483,0,11812,2,
4101,11792,11813,1,
11484,11485,11814,0,
11487,0,11815,2,
11488,0,11816,2,
11490,10648,11817,0,
11491,0,11818,2,
11492,0,11819,2,
11494,9244,11820,0,
11495,0,11821,2,
11496,0,11822,2,
11497,0,11823,2,
4503,11499,11824,0,
11501,10097,11825,0,
11500,0,11826,2,
11502,0,11827,2,
11503,0,11828,2,
11504,10112,11829,0,
11505,0,11830,2,
10463,11506,11831,0,
4408,11499,11832,0,
11507,0,11833,2,
4668,11499,11834,0,
11508,10469,11835,1,
11507,11060,11836,1,
11509,0,11837,2,
11503,10476,11838,1,
11509,10475,11839,1,
11510,10139,11840,0,
5347,11499,11841,0,
11511,0,11842,2,
11516,0,11843,2,
11515,0,11844,2,
11518,0,11845,2,
11519,11075,11846,0,
11524,0,11847,2,
11527,10708,11848,0,
11526,11088,11849,0,
11088,11529,11850,0,
11531,11095,11851,0,
11530,11533,11852,0,
11534,11102,11853,0,
11540,11539,11854,0,
11537,0,11855,2,
11543,11116,11856,0,
10732,11544,11857,0,
11541,11542,11858,0,
11544,10739,11859,1,
11544,11123,11860,0,
11550,0,11861,2,
11551,11126,11862,0,
11549,11548,11863,0,
11553,0,11864,2,
4409,11544,11865,0,
11557,0,11866,2,
11559,0,11867,2,
5013,11544,11868,0,
11560,11561,11869,0,
11564,0,11870,2,
11562,0,11871,2,
11563,0,11872,2,
11565,0,11873,2,
4504,11544,11874,0,
11566,0,11875,2,
11568,0,11876,2,
11811,0,11877,2,
11569,0,11878,2,
10359,11571,11879,1,
11571,0,11880,2,
11570,0,11881,2,
11572,0,11882,2,
11576,0,11883,2,
11573,0,11884,2,
11575,10764,11885,0,
9976,11574,11886,0,
10514,11579,11887,0,
11580,9655,11888,0,
11581,10769,11889,0,
10772,11583,11890,0,
11162,11585,11891,0,
11587,0,11892,2,
11586,0,11893,2,
11589,0,11894,2,
11588,0,11895,2,
11591,11590,11896,0,
11594,11593,11897,0,
11170,11485,11898,0,
11597,11176,11899,0,
11484,0,11900,2,
11599,11180,11901,0,
11602,11603,11902,0,
11607,11606,11903,0,
11194,11604,11904,0,
4407,11544,11905,0,
4506,11544,11906,0,
4505,11544,11907,0,
11609,0,11908,2,
11611,0,11909,2,
11610,0,11910,2,
11618,11617,11911,0,
4673,11544,11912,0,
11621,11208,11913,0,
4229,11544,11914,0,
10555,11619,11915,1,
11626,0,11916,2,
11619,0,11917,2,
11623,0,11918,2,
11622,0,11919,2,
11624,0,11920,2,
11625,0,11921,2,
4667,11544,11922,0,
4669,11544,11923,0,
11630,0,11924,2,
11220,11634,11925,0,
11632,0,11926,2,
11637,11226,11927,0,
11636,11635,11928,0,
11633,0,11929,2,
11631,0,11930,2,
11236,11642,11931,0,
11643,0,11932,2,
11244,11648,11933,0,
11652,11651,11934,0,
11653,10837,11935,0,
11256,11657,11936,0,
10840,11658,11937,0,
4101,11666,11938,1,
4101,11667,11939,1,
4101,11668,11940,1,
11669,10854,11941,0,
11671,0,11942,2,
11673,0,11943,2,
11674,11280,11944,0,
11675,0,11945,2,
4297,11676,11946,1,
11677,0,11947,2,
11680,10866,11948,0,
11656,11289,11949,0,
11683,0,11950,2,
11659,11294,11951,0,
11684,0,11952,2,
11295,11685,11953,0,
11686,4413,11954,0,
10871,11687,11955,0,
11689,10872,11956,0,
11307,11692,11957,0,
11695,4221,11958,1,
11699,0,11959,2,
4676,11499,11960,0,
10584,11700,11961,0,
11701,10586,11962,1,
11505,11057,11963,1,
11702,0,11964,2,
5348,11544,11965,0,
11704,11706,11966,0,
6278,11544,11967,0,
11709,0,11968,2,
6295,11544,11969,0,
11712,0,11970,2,
11711,0,11971,2,
11713,11339,11972,0,
11716,0,11973,2,
11714,0,11974,2,
11719,5087,11975,0,
4531,11544,11976,0,
4666,11544,11977,0,
11723,10906,11978,0,
11725,0,11979,2,
11724,0,11980,2,
11351,11727,11981,0,
11352,11728,11982,0,
10912,11729,11983,0,
11699,10583,11984,1,
11731,0,11985,2,
11730,0,11986,2,
11732,11356,11987,0,
11734,0,11988,2,
11733,0,11989,2,
11361,11735,11990,0,
11737,0,11991,2,
10933,11741,11992,0,
11379,11744,11993,0,
10944,11747,11994,0,
11748,10945,11995,0,
11750,0,11996,2,
4101,11752,11997,1,
4101,11753,11998,1,
11757,0,11999,2,
11399,11756,12000,0,
11760,0,12001,2,
4101,11761,12002,1,
11766,0,12003,2,
11769,0,12004,2,
4101,11774,12005,1,
4514,11544,12006,0,
4101,11776,12007,1,
11779,0,12008,2,
11780,11781,12009,0,
11447,11777,12010,0,
4101,11782,12011,1,
10619,11783,12012,0,
11783,4220,12013,1,
11788,11462,12014,0,
11463,11789,12015,0,
11460,11786,12016,0,
11787,11461,12017,0,
11793,0,12018,2,
11544,4052,12019,0,
10396,11801,12020,0,
11796,11797,12021,0,
11798,0,12022,2,
11800,0,12023,2,
11799,0,12024,2,
11803,11804,12025,0,
10257,11802,12026,0,
4128,11544,12027,0,
11802,10257,12028,1,
11808,0,12029,2,
11670,0,12030,2,
9553,11809,12031,0,
11807,0,12032,2,
11806,0,12033,2,
11814,0,12034,2,
11816,10648,12035,0,
10650,11817,12036,0,
11819,11041,12037,0,
11820,8765,12038,0,
10287,11825,12039,0,
11826,10101,12040,0,
11824,0,12041,2,
10292,11827,12042,0,
11828,4193,12043,0,
10300,11829,12044,0,
11057,11830,12045,0,
4158,11831,12046,1,
11060,11833,12047,0,
11834,0,12048,2,
11832,0,12049,2,
11836,0,12050,2,
11837,4413,12051,0,
11838,0,12052,2,
11835,0,12053,2,
11839,0,12054,2,
10321,11840,12055,0,
11841,0,12056,2,
11066,11842,12057,0,
11843,11072,12058,0,
11847,11088,12059,0,
11850,11847,12060,0,
11849,11529,12061,0,
11545,11855,12062,0,
11857,0,12063,2,
11859,0,12064,2,
11862,11128,12065,0,
11860,0,12066,2,
11865,0,12067,2,
11868,0,12068,2,
11874,0,12069,2,
11137,11872,12070,0,
11140,11876,12071,0,
12030,11877,12072,0,
11879,0,12073,2,
11880,10359,12074,0,
11882,10761,12075,0,
11883,11884,12076,0,
11886,0,12077,2,
11885,11578,12078,0,
11887,10534,12079,0,
11888,0,12080,2,
11889,10531,12081,0,
11890,0,12082,2,
11892,11893,12083,0,
11895,11894,12084,0,
11896,0,12085,2,
11898,11595,12086,0,
11905,0,12087,2,
11906,0,12088,2,
11907,0,12089,2,
11910,11909,12090,0,
11914,0,12091,2,
11912,0,12092,2,
11915,0,12093,2,
11919,11918,12094,0,
11212,11920,12095,0,
11627,11916,12096,0,
10555,11917,12097,0,
11922,0,12098,2,
11917,10556,12099,1,
11923,0,12100,2,
11917,10819,12101,0,
11227,11930,12102,0,
4514,11917,12103,0,
4409,11917,12104,0,
4229,11917,12105,0,
5013,11917,12106,0,
4504,11917,12107,0,
4101,11935,12108,1,
4128,11917,12109,0,
4101,11937,12110,1,
4101,11936,12111,1,
11938,0,12112,2,
11939,0,12113,2,
11946,0,12114,2,
4376,11947,12115,0,
5348,11917,12116,0,
6278,11917,12117,0,
6295,11917,12118,0,
11954,10800,12119,0,
4413,11917,12120,0,
11958,10855,12121,1,
11959,11325,12122,0,
11960,0,12123,2,
4169,11961,12124,1,
11962,0,12125,2,
12031,8984,12126,0,
11965,0,12127,2,
11967,0,12128,2,
11969,0,12129,2,
11970,11971,12130,0,
11340,11974,12131,0,
4667,11917,12132,0,
11975,0,12133,2,
11976,0,12134,2,
4669,11917,12135,0,
11977,0,12136,2,
11979,11980,12137,0,
4666,11917,12138,0,
11984,0,12139,2,
11357,11986,12140,0,
10583,11959,12141,0,
4407,11917,12142,0,
4505,11917,12143,0,
11984,10594,12144,0,
4673,11917,12145,0,
4506,11917,12146,0,
11963,0,12147,2,
11998,0,12148,2,
11997,0,12149,2,
11958,0,12150,2,
12002,0,12151,2,
12005,0,12152,2,
11917,4052,12153,0,
12006,0,12154,2,
12007,0,12155,2,
12011,0,12156,2,
4101,12009,12157,1,
12008,11453,12158,1,
12012,0,12159,2,
12013,11014,12160,1,
11453,12008,12161,0,
4101,12017,12162,1,
4101,12016,12163,1,
4101,12014,12164,1,
12013,0,12165,2,
11813,0,12166,2,
11940,0,12167,2,
12019,0,12168,2,
11475,12024,12169,0,
12022,12023,12170,0,
12020,0,12171,2,
12026,0,12172,2,
4101,12025,12173,1,
12027,0,12174,2,
12032,4127,12175,1,
11026,12126,12176,1,
12034,11486,12177,0,
12035,0,12178,2,
12036,0,12179,2,
10655,12038,12180,1,
12038,0,12181,2,
12038,10211,12182,1,
4176,12039,12183,1,
9876,12040,12184,1,
12041,9899,12185,0,
12042,0,12186,2,
12043,10297,12187,0,
10465,12045,12188,1,
4193,12044,12189,1,
12046,0,12190,2,
12048,9919,12191,0,
12045,10672,12192,0,
12049,9917,12193,0,
12051,10295,12194,0,
12056,9936,12195,0,
4413,12055,12196,1,
12057,0,12197,2,
12059,0,12198,2,
12060,0,12199,2,
12061,11545,12200,0,
11546,12063,12201,0,
12064,11861,12202,0,
12066,11864,12203,0,
12067,11556,12204,0,
12068,11871,12205,0,
11875,12069,12206,0,
12072,0,12207,2,
12073,11881,12208,0,
12074,11881,12209,0,
12075,0,12210,2,
12077,11154,12211,0,
12078,0,12212,2,
12080,9791,12213,0,
12081,9791,12214,0,
12081,10186,12215,0,
12082,10541,12216,0,
12082,10541,12217,1,
12083,0,12218,2,
12084,11592,12219,0,
11895,12085,12220,0,
12086,11489,12221,0,
12087,11612,12222,0,
11908,12088,12223,0,
12097,0,12224,2,
12098,11629,12225,0,
12099,0,12226,2,
11929,12100,12227,0,
12101,0,12228,2,
12103,0,12229,2,
12105,0,12230,2,
12104,0,12231,2,
12106,0,12232,2,
12107,0,12233,2,
12108,0,12234,2,
12109,0,12235,2,
12110,0,12236,2,
12111,0,12237,2,
12126,0,12238,2,
12115,0,12239,2,
12115,10863,12240,1,
12116,0,12241,2,
12117,0,12242,2,
12118,0,12243,2,
12119,0,12244,2,
12120,0,12245,2,
12120,11300,12246,0,
12121,0,12247,2,
12173,0,12248,2,
12122,10583,12249,0,
12123,10026,12250,0,
12124,0,12251,2,
4101,12169,12252,1,
12175,12174,12253,0,
12127,11705,12254,0,
12074,0,12255,2,
11968,12128,12256,0,
12132,0,12257,2,
12135,0,12258,2,
12138,0,12259,2,
10917,12139,12260,0,
10894,12141,12261,1,
12142,0,12262,2,
12143,0,12263,2,
12144,0,12264,2,
12146,0,12265,2,
12145,0,12266,2,
10855,12150,12267,0,
12153,0,12268,2,
11784,12154,12269,0,
12157,0,12270,2,
12161,0,12271,2,
12164,0,12272,2,
12162,0,12273,2,
12160,0,12274,2,
12163,0,12275,2,
12158,0,12276,2,
12165,4413,12277,0,
12168,11805,12278,0,
4101,12170,12279,1,
12176,0,12280,2,
12177,11815,12281,0,
12178,11039,12282,0,
11045,12181,12283,0,
12181,10272,12284,0,
4503,12184,12285,0,
10299,12185,12286,0,
12183,0,12287,2,
4668,12184,12288,0,
4408,12184,12289,0,
12186,10301,12290,1,
12186,10301,12291,0,
12187,0,12292,2,
12187,10669,12293,0,
12188,0,12294,2,
12189,0,12295,2,
12192,0,12296,2,
10311,12191,12297,0,
10310,12193,12298,0,
11064,12186,12299,0,
10148,12194,12300,0,
12196,0,12301,2,
10325,12195,12302,0,
12194,0,12303,2,
12197,10691,12304,0,
5347,12184,12305,0,
12198,11530,12306,0,
11852,12199,12307,0,
12200,11855,12308,0,
12203,0,12309,2,
12202,11866,12310,0,
12208,11577,12311,0,
12209,0,12312,2,
12076,12210,12313,0,
12213,0,12314,2,
12214,10367,12315,0,
12216,0,12316,2,
12218,11592,12317,0,
12220,0,12318,2,
12221,11817,12319,0,
11641,12229,12320,0,
12231,11243,12321,0,
10834,12232,12322,0,
11655,12233,12323,0,
11660,12235,12324,0,
11019,12238,12325,0,
11690,12244,12326,0,
12239,11282,12327,0,
12241,11285,12328,0,
11682,12242,12329,0,
12245,10855,12330,1,
12246,0,12331,2,
10585,12249,12332,1,
10403,12250,12333,0,
12249,10895,12334,0,
4676,12184,12335,0,
12257,11343,12336,0,
11726,12258,12337,0,
12260,0,12338,2,
12261,11737,12339,0,
12261,0,12340,2,
12262,11374,12341,0,
12046,12188,12342,1,
11746,12265,12343,0,
12267,0,12344,2,
12268,11459,12345,0,
12277,10564,12346,0,
12279,0,12347,2,
4101,12278,12348,1,
12252,0,12349,2,
12253,0,12350,2,
11028,12207,12351,0,
12325,0,12352,2,
12281,0,12353,2,
12282,12179,12354,0,
12283,0,12355,2,
12284,0,12356,2,
12285,0,12357,2,
4193,12286,12358,1,
10466,12287,12359,1,
12288,0,12360,2,
12291,0,12361,2,
4503,12290,12362,0,
12289,0,12363,2,
12293,0,12364,2,
12295,10669,12365,0,
12190,12294,12366,0,
12292,10437,12367,0,
10671,12287,12368,0,
4408,12290,12369,0,
4176,12297,12370,1,
4668,12290,12371,0,
4158,12298,12372,1,
12299,0,12373,2,
12300,0,12374,2,
4413,12302,12375,1,
10148,12301,12376,0,
12303,10328,12377,0,
12304,0,12378,2,
12305,0,12379,2,
5347,12290,12380,0,
12307,0,12381,2,
12309,11866,12382,0,
12311,0,12383,2,
12313,12212,12384,0,
9505,12314,12385,0,
12315,9663,12386,0,
11160,12316,12387,0,
12317,0,12388,2,
12310,0,12389,2,
12319,0,12390,2,
4101,12324,12391,1,
12348,0,12392,2,
12327,0,12393,2,
12326,10855,12394,1,
12326,0,12395,2,
12332,0,12396,2,
4169,12333,12397,1,
12334,0,12398,2,
12335,0,12399,2,
12312,12077,12400,0,
11988,12338,12401,0,
4676,12290,12402,0,
12339,0,12403,2,
11991,12340,12404,0,
12001,12344,12405,0,
12312,11154,12406,0,
4101,12345,12407,1,
12346,0,12408,2,
12353,11489,12409,0,
12354,11040,12410,0,
12359,0,12411,2,
12358,0,12412,2,
10468,12357,12413,0,
10470,12361,12414,0,
12362,0,12415,2,
10471,12363,12416,0,
12360,10128,12417,0,
12365,0,12418,2,
12366,0,12419,2,
12364,12189,12420,0,
12368,0,12421,2,
12367,0,12422,2,
12359,12047,12423,1,
12369,0,12424,2,
12372,0,12425,2,
11839,12370,12426,1,
12370,0,12427,2,
12371,0,12428,2,
11838,12372,12429,1,
11513,12373,12430,0,
12374,12196,12431,0,
12377,0,12432,2,
12375,9940,12433,1,
12376,0,12434,2,
12379,10157,12435,0,
12375,0,12436,2,
12378,11069,12437,0,
12380,0,12438,2,
12381,11545,12439,0,
12062,12381,12440,0,
12382,0,12441,2,
12383,12312,12442,0,
12400,11154,12443,0,
12385,0,12444,2,
10775,12387,12445,1,
12387,0,12446,2,
11897,12388,12447,0,
12033,12408,12448,0,
12391,0,12449,2,
12395,11300,12450,0,
12405,10619,12451,1,
12251,12396,12452,0,
12397,0,12453,2,
10587,12399,12454,0,
12384,0,12455,2,
12383,12077,12456,0,
12384,12400,12457,0,
12401,11736,12458,0,
12124,12396,12459,1,
12402,0,12460,2,
12404,0,12461,2,
12405,0,12462,2,
12407,0,12463,2,
11962,12453,12464,1,
12409,0,12465,2,
12047,12411,12466,0,
11835,12412,12467,1,
4193,12413,12468,1,
12414,0,12469,2,
4158,12416,12470,1,
10309,12417,12471,0,
10673,12415,12472,0,
12420,0,12473,2,
12296,12419,12474,0,
12424,10141,12475,0,
12423,0,12476,2,
12428,10147,12477,0,
12054,12427,12478,0,
12053,12412,12479,0,
12052,12425,12480,0,
10675,12430,12481,1,
12431,0,12482,2,
12433,0,12483,2,
10333,12435,12484,0,
9940,12436,12485,0,
12438,10161,12486,0,
12439,0,12487,2,
12440,0,12488,2,
12441,11867,12489,0,
12442,12211,12490,0,
12443,12384,12491,0,
9657,12444,12492,0,
9799,12444,12493,0,
11891,12446,12494,0,
11895,12446,12495,0,
11162,12446,12496,0,
12448,10632,12497,1,
12450,0,12498,2,
12452,0,12499,2,
12125,12453,12500,0,
4169,12454,12501,1,
11577,12455,12502,0,
12456,12312,12503,0,
12457,0,12504,2,
12311,12455,12505,0,
12459,0,12506,2,
12458,0,12507,2,
10938,12460,12508,0,
10598,12459,12509,0,
12462,10974,12510,0,
12406,12456,12511,0,
12448,0,12512,2,
12502,11879,12513,1,
12398,12499,12514,0,
12465,11818,12515,0,
12467,0,12516,2,
12466,0,12517,2,
12468,0,12518,2,
4193,12472,12519,1,
12418,12470,12520,0,
4176,12471,12521,1,
12469,10674,12522,1,
12474,0,12523,2,
11512,12469,12524,0,
10680,12475,12525,0,
12479,0,12526,2,
12480,0,12527,2,
12470,12187,12528,1,
12478,0,12529,2,
10683,12477,12530,0,
4503,12481,12531,0,
12470,0,12532,2,
10691,12469,12533,0,
12482,12432,12534,0,
4408,12481,12535,0,
12485,0,12536,2,
4413,12484,12537,1,
4668,12481,12538,0,
10711,12486,12539,0,
12487,11546,12540,0,
5347,12481,12541,0,
12201,12488,12542,0,
12490,0,12543,2,
12491,0,12544,2,
12492,0,12545,2,
12493,0,12546,2,
12494,0,12547,2,
12495,11891,12548,0,
12496,0,12549,2,
12489,12389,12550,0,
12464,0,12551,2,
12500,0,12552,2,
12501,0,12553,2,
12503,0,12554,2,
12502,12073,12555,0,
12505,0,12556,2,
12507,12403,12557,0,
12506,10930,12558,0,
4169,12508,12559,1,
4676,12481,12560,0,
12509,0,12561,2,
12510,0,12562,2,
12511,0,12563,2,
12512,11142,12564,0,
12513,0,12565,2,
12187,12532,12566,0,
12515,0,12567,2,
12516,12422,12568,0,
12421,12517,12569,0,
12050,12518,12570,0,
11836,12518,12571,1,
12519,0,12572,2,
4503,12522,12573,0,
12520,0,12574,2,
12521,0,12575,2,
12429,12523,12576,0,
12519,12476,12577,1,
12524,0,12578,2,
4158,12525,12579,1,
4176,12530,12580,1,
12528,0,12581,2,
12521,12194,12582,1,
4408,12522,12583,0,
12531,0,12584,2,
12528,11515,12585,1,
12434,12521,12586,0,
12533,11512,12587,0,
4668,12522,12588,0,
12535,0,12589,2,
12534,12483,12590,0,
12538,0,12591,2,
12537,9751,12592,1,
12537,0,12593,2,
4413,12539,12594,1,
5347,12522,12595,0,
12541,0,12596,2,
12079,12543,12597,0,
11896,12547,12598,0,
12548,0,12599,2,
12549,11591,12600,0,
12515,11182,12601,0,
12550,0,12602,2,
12542,12489,12603,0,
11963,12553,12604,1,
12514,0,12605,2,
10513,12554,12606,0,
12555,0,12607,2,
12400,12556,12608,0,
12513,9797,12609,0,
12513,9988,12610,0,
12558,0,12611,2,
12557,12264,12612,0,
4676,12522,12613,0,
12560,0,12614,2,
12559,12342,12615,1,
12147,12553,12616,0,
12559,0,12617,2,
12514,12464,12618,1,
12523,12429,12619,1,
11887,12563,12620,0,
12564,0,12621,2,
12608,10513,12622,1,
11817,12567,12623,0,
12568,12473,12624,0,
12570,0,12625,2,
12569,0,12626,2,
12573,0,12627,2,
12194,12575,12628,0,
12572,12476,12629,0,
12566,10437,12630,1,
12057,12578,12631,0,
12577,0,12632,2,
12576,0,12633,2,
12578,11842,12634,0,
12579,0,12635,2,
12580,0,12636,2,
12582,11518,12637,1,
12582,0,12638,2,
12583,0,12639,2,
12581,11844,12640,0,
12566,10669,12641,0,
12584,10488,12642,0,
12571,0,12643,2,
12588,0,12644,2,
12587,0,12645,2,
12586,0,12646,2,
12589,10492,12647,0,
12592,0,12648,2,
12591,10498,12649,0,
9751,12593,12650,0,
12594,9950,12651,1,
12595,0,12652,2,
12594,0,12653,2,
12596,10510,12654,0,
12597,12544,12655,0,
12598,0,12656,2,
12599,11892,12657,0,
11161,12600,12658,1,
11588,12598,12659,1,
11600,12602,12660,0,
12603,0,12661,2,
12551,12605,12662,0,
12604,0,12663,2,
12607,12255,12664,0,
12606,12504,12665,0,
12461,12611,12666,0,
12612,0,12667,2,
12615,0,12668,2,
12613,0,12669,2,
12614,11389,12670,0,
12616,0,12671,2,
12618,11751,12672,0,
12617,12342,12673,0,
12618,0,12674,2,
12620,12544,12675,0,
12623,0,12676,2,
12426,12626,12677,0,
12624,12574,12678,0,
12571,12625,12679,0,
12630,12189,12680,1,
12629,0,12681,2,
11514,12627,12682,0,
12628,0,12683,2,
12634,11517,12684,0,
12526,12625,12685,0,
12527,12633,12686,0,
10483,12631,12687,1,
12626,12426,12688,1,
12630,0,12689,2,
12639,10151,12690,0,
12638,11845,12691,0,
12628,10148,12692,0,
12641,0,12693,2,
11520,12642,12694,0,
12644,10158,12695,0,
12590,12646,12696,0,
12437,12645,12697,0,
11523,12647,12698,0,
11528,12649,12699,0,
12650,0,12700,2,
12651,0,12701,2,
12652,10164,12702,0,
9950,12653,12703,0,
11554,12654,12704,0,
12655,0,12705,2,
12219,12656,12706,0,
12084,12656,12707,0,
12657,12318,12708,0,
12660,12661,12709,0,
12622,0,12710,2,
12622,10388,12711,1,
12662,0,12712,2,
12665,0,12713,2,
11570,12664,12714,1,
12666,12667,12715,0,
12640,0,12716,2,
12670,11393,12717,0,
12616,12668,12718,0,
12669,10611,12719,0,
12672,0,12720,2,
12673,0,12721,2,
11391,12674,12722,0,
12675,0,12723,2,
12714,12710,12724,1,
12714,0,12725,2,
10832,12710,12726,0,
12410,12676,12727,0,
12678,0,12728,2,
12679,0,12729,2,
12677,0,12730,2,
12579,12680,12731,1,
4193,12682,12732,1,
12683,10148,12733,1,
12684,0,12734,2,
12686,0,12735,2,
4503,12687,12736,0,
12689,12295,12737,0,
12635,12680,12738,0,
12691,0,12739,2,
11521,12690,12740,0,
4193,12694,12741,1,
12692,0,12742,2,
4408,12687,12743,0,
12696,0,12744,2,
10686,12697,12745,1,
11522,12695,12746,0,
4158,12698,12747,1,
4176,12699,12748,1,
12592,12700,12749,0,
12700,12536,12750,0,
4668,12687,12751,0,
11538,12702,12752,0,
12703,0,12753,2,
4413,12704,12754,1,
12705,9791,12755,0,
11889,12705,12756,0,
12315,12705,12757,0,
12081,12705,12758,0,
12386,12705,12759,0,
12215,12705,12760,0,
12706,0,12761,2,
12707,0,12762,2,
5347,12687,12763,0,
11589,12708,12764,1,
12709,0,12765,2,
12390,12676,12766,0,
10388,12710,12767,0,
12552,12712,12768,0,
12513,12714,12769,0,
12713,11154,12770,0,
12710,10589,12771,0,
4676,12687,12772,0,
12715,0,12773,2,
12718,0,12774,2,
4169,12717,12775,1,
12719,11755,12776,0,
12722,0,12777,2,
12723,11469,12778,0,
12724,0,12779,2,
12770,10514,12780,1,
12727,0,12781,2,
12681,12728,12782,0,
12529,12730,12783,0,
12729,12632,12784,0,
12733,12301,12785,1,
12732,0,12786,2,
12731,0,12787,2,
12733,0,12788,2,
12058,12734,12789,0,
12736,0,12790,2,
12526,12728,12791,0,
12737,0,12792,2,
12738,0,12793,2,
4158,12740,12794,1,
12741,0,12795,2,
12743,0,12796,2,
4176,12746,12797,1,
4503,12745,12798,0,
12536,12744,12799,0,
12685,12728,12800,0,
12747,0,12801,2,
4408,12745,12802,0,
12749,0,12803,2,
12748,0,12804,2,
12750,12744,12805,0,
12751,0,12806,2,
4668,12745,12807,0,
4413,12752,12808,1,
12754,9957,12809,1,
12755,12215,12810,0,
12757,0,12811,2,
12756,0,12812,2,
12758,0,12813,2,
12759,0,12814,2,
12760,0,12815,2,
12447,12761,12816,0,
11594,12761,12817,0,
12083,12762,12818,0,
12763,0,12819,2,
12754,0,12820,2,
5347,12745,12821,0,
11904,12765,12822,0,
12766,12354,12823,0,
12767,0,12824,2,
12726,0,12825,2,
10064,12726,12826,1,
12726,10064,12827,0,
12724,12725,12828,0,
12724,12565,12829,0,
4676,12745,12830,0,
12768,0,12831,2,
12608,12770,12832,1,
12769,10190,12833,0,
12769,10189,12834,0,
12769,9797,12835,0,
12769,10540,12836,0,
10030,12771,12837,0,
12769,10776,12838,0,
12769,10777,12839,0,
12769,11163,12840,0,
12769,10779,12841,0,
12769,10440,12842,0,
12769,10069,12843,0,
12769,10639,12844,0,
12585,12735,12845,0,
12769,10445,12846,0,
12769,10642,12847,0,
12772,0,12848,2,
12769,11032,12849,0,
12773,12561,12850,0,
12775,0,12851,2,
12774,12721,12852,0,
12735,12585,12853,1,
12768,12604,12854,1,
4169,12776,12855,1,
12769,10265,12856,0,
12769,10443,12857,0,
12769,10264,12858,0,
12769,11050,12859,0,
12769,10449,12860,0,
12769,10654,12861,0,
12769,10272,12862,0,
12769,11045,12863,0,
12769,10448,12864,0,
12769,10081,12865,0,
12769,12181,12866,0,
12769,10657,12867,0,
12769,11046,12868,0,
10365,12778,12869,1,
12780,12710,12870,1,
12037,12781,12871,0,
12782,12685,12872,0,
12784,0,12873,2,
12783,0,12874,2,
12785,12636,12875,1,
12688,12786,12876,1,
12787,12735,12877,0,
12640,12787,12878,0,
11846,12790,12879,0,
12791,0,12880,2,
12788,12301,12881,0,
12785,0,12882,2,
12789,0,12883,2,
12693,12792,12884,0,
12688,12786,12885,0,
12794,0,12886,2,
12796,11079,12887,0,
12799,0,12888,2,
12797,0,12889,2,
12798,0,12890,2,
12800,0,12891,2,
12802,0,12892,2,
11853,12806,12893,0,
12803,12701,12894,0,
12805,0,12895,2,
12808,9954,12896,1,
12807,0,12897,2,
12808,0,12898,2,
12810,0,12899,2,
12811,9513,12900,0,
12812,10368,12901,0,
11582,12813,12902,0,
12814,12546,12903,0,
11888,12815,12904,0,
12817,12388,12905,0,
12816,0,12906,2,
11166,12818,12907,1,
12819,11171,12908,0,
12809,0,12909,2,
9957,12820,12910,0,
12821,0,12911,2,
12822,0,12912,2,
12823,0,12913,2,
12824,10831,12914,0,
12826,0,12915,2,
12827,0,12916,2,
12513,12828,12917,0,
12812,10368,12918,1,
12830,0,12919,2,
12663,12831,12920,0,
12779,12565,12921,0,
12832,10898,12922,1,
12833,0,12923,2,
12829,10543,12924,0,
12609,12828,12925,0,
12829,11584,12926,0,
12610,12828,12927,0,
12829,12217,12928,0,
12835,0,12929,2,
12834,0,12930,2,
12836,0,12931,2,
12829,12445,12932,0,
12829,12658,12933,0,
12838,0,12934,2,
12829,12659,12935,0,
12829,12764,12936,0,
12839,0,12937,2,
12840,0,12938,2,
12841,0,12939,2,
12843,0,12940,2,
12842,0,12941,2,
12844,0,12942,2,
12845,0,12943,2,
12846,0,12944,2,
12847,0,12945,2,
12849,0,12946,2,
12848,10953,12947,0,
12850,0,12948,2,
12853,12851,12949,0,
12854,0,12950,2,
12854,12148,12951,0,
12855,0,12952,2,
12857,0,12953,2,
12856,0,12954,2,
12858,0,12955,2,
12853,12851,12956,1,
12859,0,12957,2,
12861,0,12958,2,
12860,0,12959,2,
12862,0,12960,2,
12863,0,12961,2,
12864,0,12962,2,
12866,0,12963,2,
12865,0,12964,2,
12867,0,12965,2,
12780,0,12966,2,
12868,0,12967,2,
12918,0,12968,2,
12870,0,12969,2,
12871,0,12970,2,
12872,0,12971,2,
12873,12681,12972,0,
12637,12874,12973,0,
12877,12585,12974,0,
12878,0,12975,2,
12875,0,12976,2,
11076,12883,12977,0,
12643,12880,12978,0,
12882,12636,12979,0,
12881,0,12980,2,
4193,12879,12981,1,
12874,12637,12982,1,
12885,0,12983,2,
12467,12884,12984,1,
11525,12887,12985,0,
12880,12643,12986,1,
11848,12890,12987,0,
12888,12648,12988,1,
12784,12891,12989,0,
12888,12648,12990,0,
12892,10720,12991,0,
12894,12895,12992,0,
4176,12893,12993,1,
12897,10740,12994,0,
12896,0,12995,2,
9954,12898,12996,0,
12385,12899,12997,0,
12901,0,12998,2,
12900,12545,12999,0,
12902,0,13000,2,
12903,10194,13001,0,
12904,0,13002,2,
10381,12903,13003,0,
12905,0,13004,2,
12086,12906,13005,0,
11898,12906,13006,0,
11596,12908,13007,0,
12221,12906,13008,0,
12910,0,13009,2,
11170,12906,13010,0,
12911,10791,13011,0,
12912,11616,13012,0,
12913,11209,13013,0,
12913,11209,13014,1,
12912,11616,13015,1,
12914,0,13016,2,
12917,11050,13017,0,
11941,12919,13018,0,
12619,12952,13019,1,
12917,10272,13020,0,
12921,10540,13021,0,
12917,10189,13022,0,
12922,9992,13023,0,
12921,10189,13024,0,
12921,10190,13025,0,
12924,0,13026,2,
12928,0,13027,2,
12925,0,13028,2,
12927,0,13029,2,
12926,0,13030,2,
12921,10776,13031,0,
12917,10190,13032,0,
12932,0,13033,2,
12921,10777,13034,0,
12917,10540,13035,0,
12933,0,13036,2,
12921,11163,13037,0,
12917,10776,13038,0,
12935,0,13039,2,
12921,10779,13040,0,
12917,10777,13041,0,
12917,11163,13042,0,
12936,0,13043,2,
12921,10069,13044,0,
12829,12907,13045,0,
12921,10639,13046,0,
12917,10779,13047,0,
12921,10440,13048,0,
12917,10069,13049,0,
12921,10642,13050,0,
12917,10440,13051,0,
12921,10265,13052,0,
12917,10639,13053,0,
12921,11032,13054,0,
12921,10445,13055,0,
12917,11032,13056,0,
12917,10642,13057,0,
12920,0,13058,2,
12943,12716,13059,0,
12920,12668,13060,0,
12947,11754,13061,0,
12948,12720,13062,0,
12917,10445,13063,0,
12921,10443,13064,0,
12917,10265,13065,0,
12921,10264,13066,0,
12921,10448,13067,0,
12917,10443,13068,0,
12951,0,13069,2,
11998,12950,13070,0,
12619,12952,13071,0,
12949,0,13072,2,
12917,10448,13073,0,
12921,10654,13074,0,
12917,10449,13075,0,
12921,11045,13076,0,
12917,10081,13077,0,
12917,12181,13078,0,
12921,12181,13079,0,
12921,11046,13080,0,
12917,10654,13081,0,
12921,10449,13082,0,
12917,10264,13083,0,
12921,11050,13084,0,
12917,11046,13085,0,
12917,10657,13086,0,
12921,10272,13087,0,
12921,10081,13088,0,
12917,11045,13089,0,
12921,10657,13090,0,
12869,12966,13091,1,
12982,12795,13092,1,
11493,12970,13093,0,
12973,0,13094,2,
12972,0,13095,2,
12876,12971,13096,0,
12691,12976,13097,0,
12793,12975,13098,0,
12974,0,13099,2,
12973,12976,13100,0,
12742,12980,13101,0,
12979,0,13102,2,
12981,0,13103,2,
12978,0,13104,2,
12977,0,13105,2,
12984,12886,13106,1,
12982,12795,13107,0,
12984,12886,13108,0,
4158,12985,13109,1,
12986,12801,13110,1,
12986,12801,13111,0,
10697,12977,13112,1,
12988,0,13113,2,
4193,12987,13114,1,
12989,0,13115,2,
12990,0,13116,2,
11532,12991,13117,0,
12804,12988,13118,0,
12992,0,13119,2,
12993,0,13120,2,
11547,12994,13121,0,
12996,0,13122,2,
12997,0,13123,2,
12999,0,13124,2,
12998,10531,13125,0,
13000,10186,13126,0,
13001,0,13127,2,
13002,9791,13128,0,
13003,0,13129,2,
13004,10549,13130,0,
13005,0,13131,2,
13006,0,13132,2,
13004,10549,13133,1,
4413,13007,13134,1,
13008,0,13135,2,
13010,0,13136,2,
11598,13011,13137,0,
13012,0,13138,2,
13013,0,13139,2,
4676,13015,13140,0,
4408,13015,13141,0,
13016,12825,13142,0,
13091,12870,13143,0,
10839,12968,13144,1,
13017,0,13145,2,
4169,13018,13146,1,
13091,0,13147,2,
13020,0,13148,2,
13021,0,13149,2,
13022,0,13150,2,
13024,0,13151,2,
12918,13023,13152,1,
13025,0,13153,2,
13026,13029,13154,0,
13030,13028,13155,0,
13031,0,13156,2,
13032,0,13157,2,
13035,0,13158,2,
13034,0,13159,2,
5347,13015,13160,0,
13038,0,13161,2,
13037,0,13162,2,
13041,0,13163,2,
13040,0,13164,2,
13044,0,13165,2,
13042,0,13166,2,
13045,0,13167,2,
4503,13015,13168,0,
13048,0,13169,2,
13049,0,13170,2,
13047,0,13171,2,
13046,0,13172,2,
12968,10839,13173,0,
4668,13015,13174,0,
13050,0,13175,2,
13051,0,13176,2,
13053,0,13177,2,
13055,0,13178,2,
13052,0,13179,2,
13057,0,13180,2,
13054,0,13181,2,
13056,0,13182,2,
13058,12671,13183,0,
12731,13059,13184,1,
4169,13061,13185,1,
13060,0,13186,2,
13062,0,13187,2,
13066,0,13188,2,
13065,0,13189,2,
13063,0,13190,2,
13064,0,13191,2,
13067,0,13192,2,
13068,0,13193,2,
13071,0,13194,2,
13076,0,13195,2,
13073,0,13196,2,
13075,0,13197,2,
13074,0,13198,2,
13077,0,13199,2,
13081,0,13200,2,
13080,0,13201,2,
13078,0,13202,2,
13079,0,13203,2,
12829,13014,13204,0,
13082,0,13205,2,
13083,0,13206,2,
13087,0,13207,2,
13089,0,13208,2,
13086,0,13209,2,
13088,0,13210,2,
13085,0,13211,2,
13084,0,13212,2,
13090,0,13213,2,
12869,12968,13214,1,
13093,0,13215,2,
13096,13095,13216,0,
13094,12739,13217,0,
13097,0,13218,2,
13098,13099,13219,0,
13100,0,13220,2,
11080,13105,13221,0,
13104,12625,13222,0,
12433,13101,13223,1,
13108,0,13224,2,
11849,13105,13225,0,
13109,0,13226,2,
11526,13105,13227,0,
4408,13112,13228,0,
4503,13112,13229,0,
13114,0,13230,2,
12748,13113,13231,1,
13116,12700,13232,0,
13115,12681,13233,0,
12061,13105,13234,0,
13107,0,13235,2,
4158,13117,13236,1,
13118,0,13237,2,
12753,13119,13238,0,
12200,13105,13239,0,
12308,13105,13240,0,
4668,13112,13241,0,
4176,13121,13242,1,
13123,9657,13243,0,
13125,0,13244,2,
13124,9663,13245,0,
9655,13126,13246,1,
13127,9172,13247,0,
9340,13128,13248,1,
9357,13129,13249,0,
12896,13122,13250,0,
12753,13122,13251,0,
12281,13131,13252,0,
13130,0,13253,2,
12177,13132,13254,0,
13134,10382,13255,1,
12515,13135,13256,0,
13134,0,13257,2,
13136,11900,13258,0,
5347,13112,13259,0,
4413,13137,13260,1,
12601,13135,13261,0,
11620,13138,13262,0,
13139,11040,13263,0,
13140,0,13264,2,
13141,0,13265,2,
13142,0,13266,2,
13214,12969,13267,0,
13143,10657,13268,0,
13143,11046,13269,0,
13144,12827,13270,1,
13143,10081,13271,0,
13144,12916,13272,0,
13173,10413,13273,1,
13143,11050,13274,0,
13146,0,13275,2,
12852,13186,13276,0,
13213,12967,13277,0,
13143,9992,13278,0,
13149,12923,13279,0,
13143,10190,13280,0,
13143,9988,13281,0,
13151,12929,13282,0,
13143,10189,13283,0,
13143,9797,13284,0,
13153,12930,13285,0,
13152,12918,13286,0,
13143,10540,13287,0,
12918,13152,13288,1,
13156,12931,13289,0,
13143,10776,13290,0,
13036,13158,13291,0,
13159,12934,13292,0,
13143,10069,13293,0,
13160,0,13294,2,
13143,10777,13295,0,
13143,11163,13296,0,
13143,10779,13297,0,
13039,13161,13298,0,
13162,12937,13299,0,
13143,10440,13300,0,
13164,12938,13301,0,
13043,13163,13302,0,
13165,12939,13303,0,
13167,13166,13304,0,
12829,13133,13305,0,
13143,10642,13306,0,
13143,10639,13307,0,
13168,0,13308,2,
13143,11032,13309,0,
13172,12941,13310,0,
13169,12940,13311,0,
10413,13173,13312,0,
13174,0,13313,2,
13175,12942,13314,0,
13143,10445,13315,0,
4676,13112,13316,0,
13181,12945,13317,0,
13178,12946,13318,0,
13179,12944,13319,0,
13143,10265,13320,0,
13184,0,13321,2,
12615,13183,13322,1,
13185,0,13323,2,
13143,11045,13324,0,
13143,10443,13325,0,
13187,12777,13326,0,
13143,10264,13327,0,
13191,12954,13328,0,
13188,12953,13329,0,
13192,12955,13330,0,
13143,10448,13331,0,
13111,0,13332,2,
13143,10272,13333,0,
13198,12959,13334,0,
13195,12958,13335,0,
13203,12961,13336,0,
13201,12960,13337,0,
13204,0,13338,2,
13143,12181,13339,0,
13205,12962,13340,0,
13212,12964,13341,0,
13210,12965,13342,0,
13207,12963,13343,0,
13143,10654,13344,0,
13143,10449,13345,0,
13214,0,13346,2,
13147,13346,13347,0,
13215,11043,13348,0,
12875,13217,13349,1,
13216,0,13350,2,
13218,13102,13351,0,
13219,0,13352,2,
12577,13222,13353,1,
13223,0,13354,2,
13221,0,13355,2,
12889,13223,13356,0,
13227,0,13357,2,
13225,0,13358,2,
13229,0,13359,2,
13228,0,13360,2,
12876,13233,13361,1,
12651,13232,13362,1,
13236,0,13363,2,
13234,0,13364,2,
13239,0,13365,2,
13238,0,13366,2,
13240,0,13367,2,
13241,0,13368,2,
13242,0,13369,2,
12969,13346,13370,0,
10653,13263,13371,1,
9347,13243,13372,1,
8921,13245,13373,1,
13244,9984,13374,1,
13248,0,13375,2,
7503,13247,13376,1,
13249,0,13377,2,
13249,4739,13378,0,
13250,0,13379,2,
13251,13119,13380,0,
11036,13252,13381,1,
13253,11173,13382,0,
11169,13254,13383,1,
13255,0,13384,2,
13256,0,13385,2,
10382,13257,13386,0,
11030,13258,13387,1,
13260,10797,13388,1,
13259,0,13389,2,
13260,0,13390,2,
13261,0,13391,2,
13262,0,13392,2,
13264,11640,13393,0,
13265,11237,13394,0,
13215,11043,13395,1,
13267,10081,13396,0,
13267,10657,13397,0,
13269,0,13398,2,
13268,0,13399,2,
13267,11050,13400,0,
13270,0,13401,2,
13271,0,13402,2,
13272,0,13403,2,
13274,0,13404,2,
13244,12968,13405,1,
13106,13219,13406,1,
13267,10654,13407,0,
13277,13148,13408,0,
13344,0,13409,2,
13267,9988,13410,0,
13278,0,13411,2,
13267,10540,13412,0,
13279,13150,13413,0,
13267,10190,13414,0,
13267,10189,13415,0,
13267,9797,13416,0,
13280,0,13417,2,
13285,13155,13418,0,
13282,13154,13419,0,
13283,0,13420,2,
13281,0,13421,2,
13284,0,13422,2,
13267,10776,13423,0,
13287,0,13424,2,
13289,13157,13425,0,
13267,10777,13426,0,
13290,0,13427,2,
13267,10440,13428,0,
13292,13291,13429,0,
13267,11163,13430,0,
13293,0,13431,2,
13295,0,13432,2,
13294,11350,13433,0,
13267,10779,13434,0,
13267,10069,13435,0,
13297,0,13436,2,
13296,0,13437,2,
13299,13298,13438,0,
13267,10639,13439,0,
13300,0,13440,2,
13301,13302,13441,0,
13303,13304,13442,0,
13267,11032,13443,0,
13267,10642,13444,0,
13306,0,13445,2,
13305,0,13446,2,
13307,0,13447,2,
13267,10445,13448,0,
13308,11362,13449,0,
13309,0,13450,2,
13312,0,13451,2,
13313,11377,13452,0,
13267,10265,13453,0,
13315,0,13454,2,
13316,0,13455,2,
13267,10443,13456,0,
12149,13322,13457,0,
13320,0,13458,2,
13185,13321,13459,1,
13267,12181,13460,0,
13267,10264,13461,0,
13276,0,13462,2,
13323,13184,13463,0,
13322,0,13464,2,
13325,0,13465,2,
13267,10448,13466,0,
13324,0,13467,2,
13326,0,13468,2,
13276,13019,13469,1,
13327,0,13470,2,
13267,10449,13471,0,
13331,0,13472,2,
13267,11046,13473,0,
13333,0,13474,2,
13267,10272,13475,0,
13338,13206,13476,0,
13339,0,13477,2,
13267,11045,13478,0,
13345,0,13479,2,
12983,13350,13480,0,
13348,0,13481,2,
13349,13103,13482,1,
13106,13352,13483,0,
13351,13220,13484,0,
13349,13103,13485,0,
13355,11082,13486,0,
13353,0,13487,2,
12797,13354,13488,1,
13356,0,13489,2,
13226,13353,13490,0,
12306,13358,13491,0,
11524,13357,13492,0,
13360,11101,13493,0,
11851,13359,13494,0,
13361,0,13495,2,
13361,13236,13496,1,
13362,0,13497,2,
12307,13364,13498,0,
13120,13362,13499,0,
13366,12995,13500,1,
12540,13365,13501,0,
12542,13367,13502,0,
13368,11131,13503,0,
13366,12995,13504,0,
13376,0,13505,2,
13372,0,13506,2,
13374,0,13507,2,
13246,13375,13508,1,
13374,12968,13509,1,
13372,13375,13510,1,
13377,4578,13511,1,
13378,0,13512,2,
13380,0,13513,2,
12909,13379,13514,0,
10638,13382,13515,1,
12910,13384,13516,0,
13386,0,13517,2,
13385,10551,13518,1,
13385,10551,13519,0,
13388,0,13520,2,
13389,11186,13521,0,
10797,13390,13522,0,
11490,13391,13523,0,
11038,13391,13524,0,
13392,12093,13525,0,
13392,12093,13526,1,
13393,11644,13527,0,
11931,13394,13528,0,
13347,12870,13529,0,
13397,0,13530,2,
13396,0,13531,2,
13400,0,13532,2,
13405,9984,13533,1,
13406,0,13534,2,
13407,0,13535,2,
13406,13275,13536,1,
13478,0,13537,2,
13370,9997,13538,0,
13410,0,13539,2,
13370,12217,13540,0,
13413,13027,13541,0,
13370,11584,13542,0,
13370,10543,13543,0,
13370,10375,13544,0,
13412,0,13545,2,
13414,0,13546,2,
13415,0,13547,2,
13416,0,13548,2,
13370,12445,13549,0,
12622,13418,13550,1,
12622,13419,13551,1,
13423,0,13552,2,
13425,13033,13553,0,
13370,12658,13554,0,
13426,0,13555,2,
13370,13133,13556,0,
13370,12659,13557,0,
13428,0,13558,2,
13430,0,13559,2,
12622,13429,13560,1,
13370,12764,13561,0,
11981,13433,13562,0,
13370,12907,13563,0,
13435,0,13564,2,
13434,0,13565,2,
12622,13438,13566,1,
13439,0,13567,2,
12622,13441,13568,1,
13370,13383,13569,0,
12622,13442,13570,1,
13370,13387,13571,0,
13443,0,13572,2,
13444,0,13573,2,
13370,13381,13574,0,
13446,13171,13575,0,
13448,0,13576,2,
11990,13449,13577,0,
12829,13387,13578,0,
11993,13452,13579,0,
12829,13383,13580,0,
13453,0,13581,2,
12829,13381,13582,0,
11750,13375,13583,1,
11996,13375,13584,0,
13455,11405,13585,0,
13456,0,13586,2,
13457,0,13587,2,
12949,13459,13588,0,
13461,0,13589,2,
13463,0,13590,2,
13019,13462,13591,0,
13460,0,13592,2,
11997,13464,13593,0,
13466,0,13594,2,
13469,0,13595,2,
13370,13014,13596,0,
13471,0,13597,2,
10993,13376,13598,0,
12829,13371,13599,0,
12829,13395,13600,0,
13473,0,13601,2,
13340,13476,13602,0,
13475,0,13603,2,
13370,13371,13604,0,
13370,13395,13605,0,
11821,13481,13606,0,
13107,13482,13607,0,
13480,0,13608,2,
13482,13092,13609,0,
13483,0,13610,2,
13485,0,13611,2,
13484,0,13612,2,
13109,13487,13613,1,
10705,13486,13614,1,
13488,13484,13615,1,
13490,0,13616,2,
10706,13492,13617,1,
11089,13491,13618,1,
4193,13494,13619,1,
11535,13493,13620,0,
12993,13497,13621,1,
13480,13092,13622,1,
13495,13363,13623,0,
11112,13498,13624,1,
13499,0,13625,2,
13500,0,13626,2,
11537,13501,13627,1,
13502,0,13628,2,
11555,13503,13629,0,
13504,0,13630,2,
13369,13500,13631,0,
13373,13505,13632,1,
13373,13506,13633,1,
13246,13507,13634,1,
13510,0,13635,2,
13508,0,13636,2,
13509,0,13637,2,
13508,13509,13638,0,
13511,13505,13639,1,
13511,13378,13640,1,
13514,13513,13641,0,
13384,13513,13642,0,
13516,0,13643,2,
13519,0,13644,2,
11601,13521,13645,0,
13522,0,13646,2,
13523,0,13647,2,
13524,0,13648,2,
13525,0,13649,2,
4676,13526,13650,0,
4408,13526,13651,0,
4169,13527,13652,1,
4158,13528,13653,1,
13529,11046,13654,0,
13529,10272,13655,0,
13530,13398,13656,0,
13529,10657,13657,0,
13531,13399,13658,0,
13532,13402,13659,0,
13529,11050,13660,0,
13529,10081,13661,0,
13533,9992,13662,0,
13534,13275,13663,0,
13605,0,13664,2,
5347,13526,13665,0,
13538,0,13666,2,
13529,10189,13667,0,
13529,9988,13668,0,
13529,9797,13669,0,
13540,0,13670,2,
13529,9992,13671,0,
13542,0,13672,2,
13543,0,13673,2,
13545,13417,13674,0,
13544,0,13675,2,
12622,13541,13676,1,
13529,10190,13677,0,
13546,13420,13678,0,
13548,13421,13679,0,
13547,13422,13680,0,
13549,0,13681,2,
12837,13551,13682,0,
13552,13424,13683,0,
13551,13288,13684,0,
13550,0,13685,2,
13529,10540,13686,0,
4668,13526,13687,0,
12622,13553,13688,1,
13554,0,13689,2,
13555,13427,13690,0,
13529,10779,13691,0,
13529,10776,13692,0,
13556,0,13693,2,
13557,0,13694,2,
13529,10777,13695,0,
13559,13432,13696,0,
13558,13431,13697,0,
13529,11163,13698,0,
4413,13562,13699,1,
13561,0,13700,2,
13563,0,13701,2,
13560,0,13702,2,
13565,13437,13703,0,
13564,13436,13704,0,
13370,13515,13705,0,
13529,10069,13706,0,
13567,13440,13707,0,
12829,13515,13708,0,
13566,0,13709,2,
13529,10639,13710,0,
13529,10440,13711,0,
13569,0,13712,2,
13570,0,13713,2,
13568,0,13714,2,
13571,0,13715,2,
13529,10642,13716,0,
13572,13445,13717,0,
4503,13526,13718,0,
13573,13447,13719,0,
13574,0,13720,2,
13311,13575,13721,0,
4193,13577,13722,1,
13576,13450,13723,0,
13578,0,13724,2,
13370,13518,13725,0,
13529,11032,13726,0,
4176,13579,13727,1,
12829,13518,13728,0,
13580,0,13729,2,
13582,0,13730,2,
13581,13454,13731,0,
13583,0,13732,2,
13584,0,13733,2,
13529,10445,13734,0,
13585,11759,13735,0,
13586,13458,13736,0,
13529,10265,13737,0,
13529,10654,13738,0,
13529,10443,13739,0,
13588,0,13740,2,
13070,13587,13741,0,
13587,13069,13742,0,
13591,0,13743,2,
13593,0,13744,2,
13589,13465,13745,0,
13592,13467,13746,0,
13594,13470,13747,0,
13536,0,13748,2,
13595,12151,13749,0,
10571,13505,13750,1,
13529,10264,13751,0,
13596,0,13752,2,
13595,0,13753,2,
13598,0,13754,2,
13597,13472,13755,0,
13529,12181,13756,0,
13600,0,13757,2,
13599,0,13758,2,
13601,13474,13759,0,
12155,13536,13760,0,
13529,11045,13761,0,
13603,13477,13762,0,
10448,13529,13763,0,
12622,13602,13764,1,
13529,10449,13765,0,
13537,13409,13766,0,
13604,0,13767,2,
13764,0,13768,2,
13606,0,13769,2,
13609,13608,13770,0,
13607,0,13771,2,
13488,13612,13772,0,
13224,13610,13773,0,
13111,13613,13774,0,
4408,13614,13775,0,
13613,13110,13776,0,
13615,0,13777,2,
13114,13615,13778,1,
13608,13092,13779,0,
4408,13617,13780,0,
4408,13618,13781,0,
4158,13620,13782,1,
4503,13614,13783,0,
13619,0,13784,2,
13623,0,13785,2,
13622,0,13786,2,
4408,13624,13787,0,
13118,13621,13788,0,
13231,13621,13789,0,
4503,13617,13790,0,
4408,13627,13791,0,
13242,13626,13792,1,
12202,13628,13793,0,
13628,12064,13794,0,
4176,13629,13795,1,
4503,13618,13796,0,
13630,13122,13797,0,
13631,0,13798,2,
12310,13628,13799,0,
13628,12064,13800,1,
13633,0,13801,2,
13632,0,13802,2,
13634,13508,13803,0,
13634,0,13804,2,
13510,13633,13805,0,
13636,13509,13806,0,
13632,13635,13807,0,
13638,11584,13808,0,
13638,12217,13809,0,
13635,9992,13810,0,
13638,12445,13811,0,
13639,0,13812,2,
13639,13512,13813,0,
13378,13639,13814,0,
13640,0,13815,2,
13641,0,13816,2,
4668,13614,13817,0,
4668,13617,13818,0,
13642,13514,13819,0,
13517,13643,13820,0,
13644,11182,13821,0,
4668,13618,13822,0,
5347,13614,13823,0,
4503,13624,13824,0,
4413,13645,13825,1,
4503,13627,13826,0,
13648,11034,13827,0,
11488,13647,13828,0,
4668,13624,13829,0,
5347,13617,13830,0,
4668,13627,13831,0,
13638,13518,13832,0,
13638,13381,13833,0,
13638,13383,13834,0,
5347,13618,13835,0,
12224,13649,13836,0,
13638,13014,13837,0,
13650,0,13838,2,
13638,13371,13839,0,
13638,13395,13840,0,
13652,0,13841,2,
13651,0,13842,2,
13653,0,13843,2,
13655,0,13844,2,
13654,0,13845,2,
13657,0,13846,2,
13660,0,13847,2,
13661,0,13848,2,
13638,9997,13849,0,
13638,10375,13850,0,
13248,13662,13851,1,
13638,10543,13852,0,
13638,12658,13853,0,
13638,12659,13854,0,
13638,12764,13855,0,
13638,12907,13856,0,
13638,13515,13857,0,
13638,13133,13858,0,
13638,13387,13859,0,
13665,0,13860,2,
5347,13624,13861,0,
5347,13627,13862,0,
13539,13666,13863,0,
13667,0,13864,2,
13669,0,13865,2,
13668,0,13866,2,
13671,0,13867,2,
13677,0,13868,2,
13682,0,13869,2,
13684,0,13870,2,
13686,0,13871,2,
13687,0,13872,2,
13688,0,13873,2,
13691,0,13874,2,
13692,0,13875,2,
13695,0,13876,2,
13698,0,13877,2,
13699,0,13878,2,
13706,0,13879,2,
13705,0,13880,2,
13708,0,13881,2,
13710,0,13882,2,
13711,0,13883,2,
13716,0,13884,2,
13718,0,13885,2,
12622,13721,13886,1,
13722,0,13887,2,
13724,13176,13888,0,
13725,0,13889,2,
13726,0,13890,2,
13728,0,13891,2,
13727,0,13892,2,
13729,13177,13893,0,
13730,13180,13894,0,
11999,13733,13895,0,
13734,0,13896,2,
4169,13735,13897,1,
13737,0,13898,2,
13738,0,13899,2,
13740,13590,13900,0,
13739,0,13901,2,
13741,0,13902,2,
13742,13468,13903,0,
13194,13743,13904,0,
4676,13614,13905,0,
13751,0,13906,2,
12003,13750,13907,0,
13749,0,13908,2,
12002,13753,13909,0,
4676,13617,13910,0,
4676,13627,13911,0,
12003,13750,13912,1,
4676,13618,13913,0,
13756,0,13914,2,
12155,13748,13915,0,
13663,0,13916,2,
13758,13196,13917,0,
13757,13197,13918,0,
4676,13624,13919,0,
13761,0,13920,2,
13765,0,13921,2,
13763,0,13922,2,
13769,12180,13923,0,
13771,13611,13924,0,
13770,0,13925,2,
13772,0,13926,2,
13773,0,13927,2,
13775,0,13928,2,
13774,0,13929,2,
13230,13777,13930,0,
13779,0,13931,2,
13780,0,13932,2,
13781,0,13933,2,
13783,0,13934,2,
13782,0,13935,2,
13788,0,13936,2,
13787,0,13937,2,
13790,0,13938,2,
13791,0,13939,2,
13793,0,13940,2,
13794,0,13941,2,
13796,0,13942,2,
13795,0,13943,2,
12809,13797,13944,1,
13799,0,13945,2,
4408,13800,13946,0,
13802,13801,13947,0,
13804,13637,13948,0,
13803,13637,13949,0,
13802,13635,13950,0,
13806,10190,13951,0,
13806,10540,13952,0,
13805,9988,13953,0,
13807,9797,13954,0,
13807,9988,13955,0,
13808,0,13956,2,
13809,0,13957,2,
13376,13810,13958,1,
13805,9797,13959,0,
13806,10776,13960,0,
13807,10189,13961,0,
13811,0,13962,2,
13814,0,13963,2,
13813,0,13964,2,
13807,10190,13965,0,
13805,10189,13966,0,
13812,13512,13967,0,
13815,13812,13968,0,
13813,9997,13969,0,
13814,9988,13970,0,
13807,10540,13971,0,
13813,10375,13972,0,
13805,10190,13973,0,
13814,9797,13974,0,
13805,11163,13975,0,
13807,10779,13976,0,
13805,10779,13977,0,
13807,10069,13978,0,
13813,12658,13979,0,
13814,10777,13980,0,
13814,10776,13981,0,
13813,12445,13982,0,
13807,10776,13983,0,
13805,10540,13984,0,
13807,11163,13985,0,
13805,10777,13986,0,
13813,11584,13987,0,
13805,10069,13988,0,
13813,10543,13989,0,
13807,10440,13990,0,
13813,12217,13991,0,
13807,10777,13992,0,
13805,10776,13993,0,
13814,10540,13994,0,
13814,10190,13995,0,
13814,10189,13996,0,
13807,10445,13997,0,
13805,11032,13998,0,
13814,11163,13999,0,
13813,12659,14000,0,
13813,13515,14001,0,
13814,10639,14002,0,
13816,13009,14003,0,
13817,0,14004,2,
13814,10440,14005,0,
13805,10642,14006,0,
13807,11032,14007,0,
13813,13133,14008,0,
13818,0,14009,2,
13805,10440,14010,0,
13807,10639,14011,0,
13813,12764,14012,0,
13805,10445,14013,0,
13807,10265,14014,0,
13814,10779,14015,0,
13819,0,14016,2,
13813,13387,14017,0,
13814,10642,14018,0,
13814,10069,14019,0,
13813,12907,14020,0,
13807,10642,14021,0,
13805,10639,14022,0,
10446,13821,14023,1,
13822,0,14024,2,
13807,10443,14025,0,
13805,10265,14026,0,
13823,0,14027,2,
13824,0,14028,2,
13814,11032,14029,0,
13813,13383,14030,0,
13825,10553,14031,1,
13825,0,14032,2,
4503,13800,14033,0,
13826,0,14034,2,
10646,13827,14035,1,
10447,13828,14036,1,
13829,0,14037,2,
13807,10448,14038,0,
13805,10264,14039,0,
13807,10264,14040,0,
13805,10443,14041,0,
13830,0,14042,2,
13814,10265,14043,0,
13814,10445,14044,0,
13813,13518,14045,0,
13813,13381,14046,0,
4676,13800,14047,0,
13806,10443,14048,0,
13806,10265,14049,0,
13806,10445,14050,0,
13806,11032,14051,0,
13833,0,14052,2,
13805,10448,14053,0,
13807,10449,14054,0,
13832,0,14055,2,
13831,0,14056,2,
13834,0,14057,2,
13805,10449,14058,0,
13807,10654,14059,0,
13814,10443,14060,0,
13814,10264,14061,0,
4668,13800,14062,0,
13836,0,14063,2,
13806,10448,14064,0,
13806,10449,14065,0,
13835,0,14066,2,
13837,0,14067,2,
13806,10264,14068,0,
13814,10448,14069,0,
13806,10272,14070,0,
13838,11233,14071,0,
13806,10654,14072,0,
13839,0,14073,2,
13806,11045,14074,0,
13814,10449,14075,0,
13813,13014,14076,0,
13805,10654,14077,0,
13807,11045,14078,0,
13840,0,14079,2,
13769,12180,14080,1,
13842,11649,14081,0,
13806,12181,14082,0,
13813,13371,14083,0,
13814,10654,14084,0,
13805,11045,14085,0,
13807,12181,14086,0,
13814,11045,14087,0,
13813,13395,14088,0,
13807,11046,14089,0,
13805,10272,14090,0,
13806,11046,14091,0,
13807,10272,14092,0,
13805,12181,14093,0,
13806,10081,14094,0,
13814,12181,14095,0,
13806,11050,14096,0,
13806,10657,14097,0,
13807,10657,14098,0,
13805,11046,14099,0,
13806,9988,14100,0,
13849,0,14101,2,
13806,9797,14102,0,
13850,0,14103,2,
13806,10189,14104,0,
13852,0,14105,2,
13851,13248,14106,0,
13806,10777,14107,0,
13853,0,14108,2,
13766,13921,14109,0,
13805,9992,14110,0,
13806,11163,14111,0,
13854,0,14112,2,
13806,10779,14113,0,
13806,10069,14114,0,
13856,0,14115,2,
13855,0,14116,2,
13806,10639,14117,0,
13857,0,14118,2,
13806,10440,14119,0,
13806,10642,14120,0,
13858,0,14121,2,
13859,0,14122,2,
13860,11678,14123,0,
13861,0,14124,2,
13862,0,14125,2,
5347,13800,14126,0,
13863,13411,14127,0,
13670,13864,14128,0,
13675,13867,14129,0,
13672,13865,14130,0,
13851,13375,14131,1,
13673,13866,14132,0,
13681,13868,14133,0,
13872,11721,14134,0,
13689,13871,14135,0,
13694,13875,14136,0,
13693,13874,14137,0,
13700,13876,14138,0,
13701,13877,14139,0,
13880,13879,14140,0,
13881,13170,14141,0,
13712,13882,14142,0,
13715,13883,14143,0,
13720,13884,14144,0,
13885,11739,14145,0,
13886,0,14146,2,
13814,11046,14147,0,
13314,13888,14148,0,
13889,13890,14149,0,
13814,10272,14150,0,
13891,13182,14151,0,
13318,13894,14152,0,
13317,13893,14153,0,
13807,10081,14154,0,
13805,10657,14155,0,
13805,10081,14156,0,
13807,11050,14157,0,
13895,0,14158,2,
13897,0,14159,2,
13773,13110,14160,1,
13805,11050,14161,0,
13814,10657,14162,0,
13744,13902,14163,0,
13903,0,14164,2,
13814,10081,14165,0,
13905,0,14166,2,
13904,0,14167,2,
13814,11050,14168,0,
13907,0,14169,2,
13752,13906,14170,0,
13904,12956,14171,1,
13909,0,14172,2,
13910,0,14173,2,
13911,0,14174,2,
13913,0,14175,2,
13335,13918,14176,0,
13334,13917,14177,0,
13919,0,14178,2,
13922,13479,14179,0,
13923,0,14180,2,
13924,13925,14181,0,
13776,13927,14182,0,
13489,13926,14183,0,
13928,11104,14184,0,
13616,13929,14185,0,
13930,0,14186,2,
13931,13235,14187,0,
11854,13932,14188,0,
13933,11115,14189,0,
11856,13934,14190,0,
13622,13935,14191,1,
13786,13935,14192,0,
13625,13936,14193,0,
13937,11552,14194,0,
12065,13938,14195,0,
13939,11558,14196,0,
13941,12066,14197,0,
12203,13940,14198,0,
13944,13943,14199,1,
13942,11136,14200,0,
12489,13945,14201,0,
13946,0,14202,2,
13947,13510,14203,0,
13949,10189,14204,0,
13949,9797,14205,0,
13950,10375,14206,0,
13948,10189,14207,0,
13948,10190,14208,0,
13953,0,14209,2,
13951,0,14210,2,
13955,0,14211,2,
13954,0,14212,2,
13952,0,14213,2,
13958,0,14214,2,
13948,10540,14215,0,
13950,10543,14216,0,
13949,10190,14217,0,
13961,0,14218,2,
13960,0,14219,2,
13959,0,14220,2,
13963,13964,14221,0,
13950,11584,14222,0,
13965,0,14223,2,
13966,0,14224,2,
13967,13640,14225,0,
13968,9992,14226,0,
13969,0,14227,2,
13970,0,14228,2,
13950,12217,14229,0,
13968,9988,14230,0,
13950,12764,14231,0,
13972,0,14232,2,
13973,0,14233,2,
13974,0,14234,2,
13950,12907,14235,0,
13971,0,14236,2,
13968,10776,14237,0,
13968,10540,14238,0,
13950,12445,14239,0,
13982,0,14240,2,
13977,0,14241,2,
13978,0,14242,2,
13975,0,14243,2,
13981,0,14244,2,
13976,0,14245,2,
13950,12659,14246,0,
13980,0,14247,2,
13979,0,14248,2,
13985,0,14249,2,
13968,10189,14250,0,
13968,10190,14251,0,
13950,13133,14252,0,
13986,0,14253,2,
13950,12658,14254,0,
13968,9797,14255,0,
13984,0,14256,2,
13983,0,14257,2,
13994,0,14258,2,
13996,0,14259,2,
13992,0,14260,2,
13993,0,14261,2,
13991,0,14262,2,
13987,0,14263,2,
13995,0,14264,2,
13989,0,14265,2,
13968,10777,14266,0,
13950,13381,14267,0,
13990,0,14268,2,
13988,0,14269,2,
13968,10440,14270,0,
14000,0,14271,2,
13968,10069,14272,0,
13997,0,14273,2,
13999,0,14274,2,
13950,13383,14275,0,
13998,0,14276,2,
11899,14004,14277,0,
14002,0,14278,2,
14001,0,14279,2,
14006,0,14280,2,
14007,0,14281,2,
14005,0,14282,2,
13255,14003,14283,1,
14008,0,14284,2,
13950,13515,14285,0,
13950,13518,14286,0,
13944,13943,14287,0,
14010,0,14288,2,
14011,0,14289,2,
14009,11181,14290,0,
13968,11163,14291,0,
13820,14016,14292,0,
14012,0,14293,2,
14015,0,14294,2,
14013,0,14295,2,
14014,0,14296,2,
13968,10639,14297,0,
13968,10779,14298,0,
14017,0,14299,2,
14018,0,14300,2,
13950,13387,14301,0,
14019,0,14302,2,
14020,0,14303,2,
14022,0,14304,2,
14021,0,14305,2,
13950,14023,14306,0,
14024,11189,14307,0,
14027,11197,14308,0,
14026,0,14309,2,
14025,0,14310,2,
14028,11605,14311,0,
13968,10642,14312,0,
10553,14032,14313,0,
14029,0,14314,2,
14031,0,14315,2,
14030,0,14316,2,
14034,11613,14317,0,
14033,0,14318,2,
13950,14035,14319,0,
13950,14036,14320,0,
14037,11615,14321,0,
14040,0,14322,2,
14041,0,14323,2,
14038,0,14324,2,
14039,0,14325,2,
13968,11032,14326,0,
13968,10445,14327,0,
14043,0,14328,2,
14045,0,14329,2,
14046,0,14330,2,
14042,11210,14331,0,
14044,0,14332,2,
13638,14023,14333,0,
13949,10445,14334,0,
14047,0,14335,2,
13948,10265,14336,0,
13949,10639,14337,0,
13948,11032,14338,0,
13948,10445,14339,0,
13949,11032,14340,0,
13949,10642,14341,0,
14048,0,14342,2,
13948,10642,14343,0,
13950,13014,14344,0,
14050,0,14345,2,
14049,0,14346,2,
14051,0,14347,2,
14054,0,14348,2,
14053,0,14349,2,
13968,10265,14350,0,
13813,14035,14351,0,
13968,10443,14352,0,
13950,13371,14353,0,
14056,11628,14354,0,
13813,14023,14355,0,
14061,0,14356,2,
13948,10264,14357,0,
13638,14036,14358,0,
13949,10264,14359,0,
13948,10448,14360,0,
13949,10443,14361,0,
14059,0,14362,2,
14058,0,14363,2,
14060,0,14364,2,
13949,10265,14365,0,
13638,14035,14366,0,
14064,0,14367,2,
14065,0,14368,2,
13948,10443,14369,0,
14063,12226,14370,0,
14062,0,14371,2,
14066,11225,14372,0,
13813,14036,14373,0,
13968,10264,14374,0,
14068,0,14375,2,
14069,0,14376,2,
13949,10448,14377,0,
13948,12181,14378,0,
13948,10449,14379,0,
13949,11045,14380,0,
14071,12320,14381,0,
14072,0,14382,2,
14070,0,14383,2,
14063,12226,14384,1,
13949,10449,14385,0,
13948,10654,14386,0,
13968,10448,14387,0,
14074,0,14388,2,
13950,13395,14389,0,
14076,0,14390,2,
14078,0,14391,2,
14075,0,14392,2,
14077,0,14393,2,
13948,11045,14394,0,
13638,14080,14395,0,
13949,10654,14396,0,
12321,14081,14397,0,
14082,0,14398,2,
13968,10449,14399,0,
14083,0,14400,2,
14084,0,14401,2,
13950,14080,14402,0,
13968,10654,14403,0,
14086,0,14404,2,
14085,0,14405,2,
14088,0,14406,2,
14087,0,14407,2,
13948,10272,14408,0,
13949,12181,14409,0,
14089,0,14410,2,
14090,0,14411,2,
14093,0,14412,2,
14092,0,14413,2,
14091,0,14414,2,
13949,11046,14415,0,
13948,10657,14416,0,
13968,11045,14417,0,
13813,14080,14418,0,
13949,10657,14419,0,
13948,10081,14420,0,
14096,0,14421,2,
14094,0,14422,2,
14095,0,14423,2,
13949,10272,14424,0,
13948,11046,14425,0,
14097,0,14426,2,
13948,11050,14427,0,
14099,0,14428,2,
14098,0,14429,2,
13949,10081,14430,0,
14100,0,14431,2,
13948,9988,14432,0,
13949,9992,14433,0,
13948,9992,14434,0,
14102,0,14435,2,
13949,9988,14436,0,
13948,9797,14437,0,
14104,0,14438,2,
13958,13505,14439,1,
13949,10540,14440,0,
13948,10776,14441,0,
14107,0,14442,2,
13950,9997,14443,0,
14110,0,14444,2,
13948,10777,14445,0,
13949,10776,14446,0,
14111,0,14447,2,
13949,10777,14448,0,
13948,11163,14449,0,
13949,11163,14450,0,
13948,10779,14451,0,
14114,0,14452,2,
14113,0,14453,2,
13949,10069,14454,0,
13948,10440,14455,0,
14117,0,14456,2,
13949,10779,14457,0,
13948,10069,14458,0,
13948,10639,14459,0,
13949,10440,14460,0,
14119,0,14461,2,
14120,0,14462,2,
12328,14123,14463,0,
14125,11707,14464,0,
14124,11708,14465,0,
14126,0,14466,2,
12918,14127,14467,1,
13674,14128,14468,0,
13678,14130,14469,0,
13680,14132,14470,0,
13679,14129,14471,0,
14131,0,14472,2,
13683,14133,14473,0,
13690,14135,14474,0,
12336,14134,14475,0,
13697,14137,14476,0,
13696,14136,14477,0,
13704,14139,14478,0,
13703,14138,14479,0,
13707,14140,14480,0,
13717,14142,14481,0,
13310,14141,14482,0,
13719,14143,14483,0,
13723,14144,14484,0,
12341,14145,14485,0,
13968,10272,14486,0,
14147,0,14487,2,
12622,14148,14488,1,
13968,12181,14489,0,
14150,0,14490,2,
13731,14149,14491,0,
13319,14151,14492,0,
13370,14023,14493,0,
12829,14023,14494,0,
12622,14152,14495,1,
14155,0,14496,2,
14154,0,14497,2,
13949,11050,14498,0,
12622,14153,14499,1,
12829,14035,14500,0,
12829,14036,14501,0,
13370,14080,14502,0,
13370,14035,14503,0,
14157,0,14504,2,
14156,0,14505,2,
14158,10571,14506,1,
13370,14036,14507,0,
14160,14159,14508,1,
10571,14158,14509,0,
13968,11046,14510,0,
14162,0,14511,2,
14161,0,14512,2,
14160,0,14513,2,
13968,10657,14514,0,
14163,14164,14515,0,
13927,13110,14516,0,
13968,10081,14517,0,
14165,0,14518,2,
14168,0,14519,2,
14166,11419,14520,0,
13968,11050,14521,0,
12956,14167,14522,0,
13755,14170,14523,0,
13754,14169,14524,0,
14171,0,14525,2,
12829,14080,14526,0,
14173,11446,14527,0,
14174,11785,14528,0,
14175,11790,14529,0,
12622,14177,14530,1,
12622,14176,14531,1,
14178,11795,14532,0,
13664,14109,14533,0,
13535,14179,14534,0,
12968,14533,14535,1,
14534,13767,14536,0,
12355,14180,14537,0,
14181,0,14538,2,
14182,0,14539,2,
13231,14183,14540,1,
14183,0,14541,2,
11536,14184,14542,0,
13482,14187,14543,1,
11858,14189,14544,0,
4158,14188,14545,1,
4193,14190,14546,1,
14191,0,14547,2,
11863,14194,14548,0,
4193,14195,14549,1,
12204,14196,14550,0,
11550,14197,14551,1,
11557,14198,14552,1,
11869,14200,14553,0,
14201,0,14554,2,
14202,11567,14555,0,
14203,9992,14556,0,
14207,0,14557,2,
14205,0,14558,2,
14208,0,14559,2,
14204,0,14560,2,
14206,0,14561,2,
14203,9988,14562,0,
14212,14209,14563,0,
14214,13505,14564,0,
14217,0,14565,2,
14215,0,14566,2,
14216,0,14567,2,
14218,14220,14568,0,
14203,9797,14569,0,
14222,0,14570,2,
14221,0,14571,2,
14225,9992,14572,0,
14223,14224,14573,0,
14203,10189,14574,0,
14229,0,14575,2,
14230,0,14576,2,
14228,14227,14577,0,
14203,11163,14578,0,
14225,10540,14579,0,
14203,10777,14580,0,
14226,0,14581,2,
14225,10190,14582,0,
14203,10190,14583,0,
14236,14233,14584,0,
14231,0,14585,2,
14238,0,14586,2,
14203,10776,14587,0,
14235,0,14588,2,
14237,0,14589,2,
14225,9988,14590,0,
14203,10779,14591,0,
14225,9797,14592,0,
14246,0,14593,2,
14225,10189,14594,0,
14203,10540,14595,0,
14239,0,14596,2,
14242,14241,14597,0,
14245,14243,14598,0,
14249,14253,14599,0,
14257,14256,14600,0,
14254,0,14601,2,
14251,0,14602,2,
14255,0,14603,2,
14250,0,14604,2,
14203,10642,14605,0,
14252,0,14606,2,
14225,10776,14607,0,
14268,14269,14608,0,
14260,14261,14609,0,
14225,10779,14610,0,
14266,0,14611,2,
14225,10069,14612,0,
14267,0,14613,2,
14203,10639,14614,0,
14270,0,14615,2,
14275,0,14616,2,
14272,0,14617,2,
14273,14276,14618,0,
4176,14277,14619,1,
14281,14280,14620,0,
14203,10069,14621,0,
14283,0,14622,2,
14225,10777,14623,0,
14203,11032,14624,0,
14285,0,14625,2,
14225,10440,14626,0,
14289,14288,14627,0,
14291,0,14628,2,
14286,0,14629,2,
11901,14290,14630,0,
14292,0,14631,2,
14296,14295,14632,0,
14203,10440,14633,0,
14225,11163,14634,0,
14297,0,14635,2,
14301,0,14636,2,
14298,0,14637,2,
14203,10445,14638,0,
14305,14304,14639,0,
14225,10639,14640,0,
11902,14307,14641,0,
14306,0,14642,2,
14287,0,14643,2,
11903,14311,14644,0,
14310,14309,14645,0,
11608,14308,14646,0,
14312,0,14647,2,
14313,0,14648,2,
14203,10265,14649,0,
14318,11614,14650,0,
14203,10443,14651,0,
12222,14317,14652,0,
14319,0,14653,2,
14225,11032,14654,0,
14225,10642,14655,0,
14320,0,14656,2,
11911,14321,14657,0,
14324,14325,14658,0,
14327,0,14659,2,
14326,0,14660,2,
14322,14323,14661,0,
11913,14331,14662,0,
14336,0,14663,2,
14335,12091,14664,0,
14333,0,14665,2,
14334,0,14666,2,
14341,0,14667,2,
14203,10264,14668,0,
14340,0,14669,2,
14339,0,14670,2,
14343,0,14671,2,
14337,0,14672,2,
14338,0,14673,2,
14344,0,14674,2,
14225,10265,14675,0,
14203,10448,14676,0,
14225,10445,14677,0,
14352,0,14678,2,
14351,0,14679,2,
12225,14354,14680,0,
14353,0,14681,2,
14355,0,14682,2,
14350,0,14683,2,
14348,14349,14684,0,
14359,0,14685,2,
14360,0,14686,2,
14361,0,14687,2,
14357,0,14688,2,
14358,0,14689,2,
14362,14363,14690,0,
14225,10443,14691,0,
11928,14372,14692,0,
14371,11639,14693,0,
14369,0,14694,2,
14365,0,14695,2,
14366,0,14696,2,
14370,0,14697,2,
14374,0,14698,2,
14373,0,14699,2,
14377,0,14700,2,
14379,0,14701,2,
14380,0,14702,2,
14378,0,14703,2,
4676,14384,14704,0,
4169,14381,14705,1,
14225,10264,14706,0,
14386,0,14707,2,
14203,10449,14708,0,
14385,0,14709,2,
14387,0,14710,2,
14389,0,14711,2,
14391,14393,14712,0,
4158,14397,14713,1,
14394,0,14714,2,
14396,0,14715,2,
14395,0,14716,2,
4408,14384,14717,0,
14225,10448,14718,0,
14399,0,14719,2,
14225,10449,14720,0,
14203,10654,14721,0,
14403,0,14722,2,
14402,0,14723,2,
14404,14405,14724,0,
14203,12181,14725,0,
14203,11045,14726,0,
14410,14411,14727,0,
14409,0,14728,2,
14408,0,14729,2,
14225,10654,14730,0,
14413,14412,14731,0,
14416,0,14732,2,
14419,0,14733,2,
14415,0,14734,2,
14417,0,14735,2,
14420,0,14736,2,
14418,0,14737,2,
14425,0,14738,2,
14203,10272,14739,0,
14424,0,14740,2,
14427,0,14741,2,
14429,14428,14742,0,
14430,0,14743,2,
14431,14101,14744,0,
14433,0,14745,2,
14432,0,14746,2,
14434,0,14747,2,
14436,0,14748,2,
14437,0,14749,2,
14439,0,14750,2,
14440,0,14751,2,
14441,0,14752,2,
14443,0,14753,2,
14445,0,14754,2,
14446,0,14755,2,
14450,0,14756,2,
14448,0,14757,2,
14451,0,14758,2,
14449,0,14759,2,
14455,0,14760,2,
14454,0,14761,2,
14458,0,14762,2,
14457,0,14763,2,
14460,0,14764,2,
14459,0,14765,2,
5347,14384,14766,0,
4413,14463,14767,1,
12254,14464,14768,0,
11966,14465,14769,0,
14466,11710,14770,0,
14467,0,14771,2,
13286,14467,14772,1,
12918,14468,14773,1,
12918,14469,14774,1,
12918,14470,14775,1,
12918,14471,14776,1,
12918,14473,14777,1,
4668,14384,14778,0,
4176,14475,14779,1,
12918,14474,14780,1,
12918,14477,14781,1,
12918,14476,14782,1,
12918,14478,14783,1,
12918,14479,14784,1,
12918,14480,14785,1,
12918,14481,14786,1,
12622,14482,14787,1,
12918,14483,14788,1,
12918,14484,14789,1,
4503,14384,14790,0,
4193,14485,14791,1,
14225,12181,14792,0,
14486,0,14793,2,
14225,11045,14794,0,
14489,0,14795,2,
14488,0,14796,2,
12918,14491,14797,1,
14203,11046,14798,0,
12622,14492,14799,1,
14493,0,14800,2,
14203,10657,14801,0,
14500,0,14802,2,
14494,0,14803,2,
14498,0,14804,2,
14497,14496,14805,0,
14503,0,14806,2,
14501,0,14807,2,
14522,13459,14808,0,
14502,0,14809,2,
14495,0,14810,2,
14504,14505,14811,0,
14499,0,14812,2,
14507,0,14813,2,
14225,10272,14814,0,
14203,10081,14815,0,
14509,0,14816,2,
14508,0,14817,2,
14225,11046,14818,0,
14510,0,14819,2,
14513,14159,14820,0,
14514,0,14821,2,
14203,11050,14822,0,
14225,10657,14823,0,
14517,0,14824,2,
14516,0,14825,2,
14515,0,14826,2,
14225,10081,14827,0,
14521,0,14828,2,
14520,11771,14829,0,
14522,0,14830,2,
14225,11050,14831,0,
12918,14523,14832,1,
14524,0,14833,2,
14525,12152,14834,0,
14525,0,14835,2,
14526,0,14836,2,
14527,12010,14837,0,
14528,12269,14838,0,
14529,12015,14839,0,
14530,0,14840,2,
14192,0,14841,2,
14531,0,14842,2,
14532,12021,14843,0,
12968,14536,14844,1,
14537,0,14845,2,
14538,13778,14846,0,
13231,14541,14847,0,
14540,0,14848,2,
14185,14539,14849,0,
4158,14542,14850,1,
4158,14544,14851,1,
14538,13778,14852,1,
14543,0,14853,2,
14545,0,14854,2,
13789,14541,14855,0,
14546,0,14856,2,
4158,14548,14857,1,
4158,14550,14858,1,
14549,0,14859,2,
4676,14551,14860,0,
4676,14552,14861,0,
4193,14553,14862,1,
14554,11139,14863,1,
12206,14555,14864,0,
14556,0,14865,2,
14210,14557,14866,0,
14213,14559,14867,0,
14558,13956,14868,0,
13957,14560,14869,0,
14562,0,14870,2,
13962,14565,14871,0,
14219,14566,14872,0,
14569,0,14873,2,
14571,9992,14874,0,
14574,0,14875,2,
14572,0,14876,2,
14577,14581,14877,0,
14582,0,14878,2,
14580,0,14879,2,
14579,0,14880,2,
14578,0,14881,2,
14234,14576,14882,0,
14587,0,14883,2,
14583,0,14884,2,
14244,14586,14885,0,
14247,14589,14886,0,
14590,0,14887,2,
14594,0,14888,2,
14592,0,14889,2,
14595,0,14890,2,
14591,0,14891,2,
14605,0,14892,2,
14259,14603,14893,0,
14264,14604,14894,0,
14258,14602,14895,0,
14607,0,14896,2,
14612,0,14897,2,
14614,0,14898,2,
14274,14611,14899,0,
14610,0,14900,2,
14282,14617,14901,0,
14278,14615,14902,0,
14619,0,14903,2,
14619,14622,14904,1,
14621,0,14905,2,
14623,0,14906,2,
14624,0,14907,2,
14626,0,14908,2,
4176,14630,14909,1,
14294,14628,14910,0,
14631,13520,14911,1,
14631,13520,14912,0,
14633,0,14913,2,
14634,0,14914,2,
14300,14635,14915,0,
14302,14637,14916,0,
14638,0,14917,2,
4408,14551,14918,0,
4176,14641,14919,1,
14640,0,14920,2,
4193,14644,14921,1,
4413,14646,14922,1,
14314,14647,14923,0,
14031,14648,14924,0,
13646,14648,14925,0,
14649,0,14926,2,
14651,0,14927,2,
12223,14650,14928,0,
4193,14652,14929,1,
14554,11139,14930,0,
14654,0,14931,2,
4176,14657,14932,1,
4503,14551,14933,0,
4408,14552,14934,0,
14655,0,14935,2,
14328,14659,14936,0,
14332,14660,14937,0,
4413,14662,14938,1,
14665,14666,14939,0,
14342,14663,14940,0,
14664,12096,14941,0,
14668,0,14942,2,
14055,14669,14943,0,
14345,14673,14944,0,
14052,14667,14945,0,
14347,14671,14946,0,
14346,14670,14947,0,
14057,14672,14948,0,
4503,14552,14949,0,
14675,0,14950,2,
14676,0,14951,2,
14677,0,14952,2,
14364,14683,14953,0,
4176,14680,14954,1,
14356,14678,14955,0,
14689,14687,14956,0,
14368,14686,14957,0,
14367,14688,14958,0,
14067,14685,14959,0,
14375,14694,14960,0,
14691,0,14961,2,
12227,14693,14962,0,
14696,14695,14963,0,
12228,14697,14964,0,
4413,14692,14965,1,
14376,14698,14966,0,
14073,14700,14967,0,
14382,14701,14968,0,
14383,14703,14969,0,
14704,0,14970,2,
14705,0,14971,2,
14079,14709,14972,0,
14388,14707,14973,0,
14706,0,14974,2,
14708,0,14975,2,
14392,14710,14976,0,
14398,14714,14977,0,
14716,14715,14978,0,
14713,0,14979,2,
14718,0,14980,2,
14717,0,14981,2,
14401,14719,14982,0,
14720,0,14983,2,
14721,0,14984,2,
14407,14722,14985,0,
14725,0,14986,2,
14726,0,14987,2,
14414,14729,14988,0,
14730,0,14989,2,
14423,14735,14990,0,
14422,14732,14991,0,
14421,14736,14992,0,
14426,14738,14993,0,
14739,0,14994,2,
14435,14746,14995,0,
14745,14103,14996,0,
14744,14747,14997,0,
14105,14748,14998,0,
14438,14749,14999,0,
14442,14752,15000,0,
14108,14751,15001,0,
14444,14753,15002,0,
14447,14754,15003,0,
14112,14755,15004,0,
14116,14757,15005,0,
14115,14756,15006,0,
14453,14759,15007,0,
14452,14758,15008,0,
14118,14761,15009,0,
14456,14760,15010,0,
14121,14763,15011,0,
14461,14762,15012,0,
14122,14764,15013,0,
14462,14765,15014,0,
14766,0,15015,2,
14767,0,15016,2,
4413,14769,15017,1,
4413,14768,15018,1,
12256,14770,15019,0,
5347,14551,15020,0,
5347,14552,15021,0,
13286,14771,15022,0,
14772,0,15023,2,
14773,0,15024,2,
14772,13685,15025,0,
14774,0,15026,2,
14775,0,15027,2,
14776,0,15028,2,
14777,0,15029,2,
4668,14551,15030,0,
14778,0,15031,2,
14779,0,15032,2,
14780,0,15033,2,
4668,14552,15034,0,
14781,0,15035,2,
14782,0,15036,2,
14783,0,15037,2,
14784,0,15038,2,
14785,0,15039,2,
14786,0,15040,2,
14787,0,15041,2,
14788,0,15042,2,
14789,0,15043,2,
14790,0,15044,2,
14792,0,15045,2,
14487,14793,15046,0,
14791,0,15047,2,
14794,0,15048,2,
14490,14795,15049,0,
14798,0,15050,2,
14797,0,15051,2,
14800,13896,15052,0,
14801,0,15053,2,
14803,13190,15054,0,
14799,0,15055,2,
14802,13189,15056,0,
14808,0,15057,2,
14806,13898,15058,0,
14809,13899,15059,0,
14807,13193,15060,0,
14814,0,15061,2,
14813,13901,15062,0,
14511,14819,15063,0,
13748,14817,15064,0,
13663,14817,15065,0,
14815,0,15066,2,
14818,0,15067,2,
14822,0,15068,2,
14823,0,15069,2,
14820,0,15070,2,
14518,14821,15071,0,
14519,14824,15072,0,
14826,13908,15073,0,
14825,13332,15074,0,
14827,0,15075,2,
14830,13072,15076,0,
4169,14829,15077,1,
14831,0,15078,2,
14834,0,15079,2,
12005,14835,15080,0,
14833,11441,15081,1,
14832,0,15082,2,
11441,14833,15083,0,
14836,13200,15084,0,
4169,14837,15085,1,
13623,14547,15086,0,
14547,13496,15087,0,
4169,14838,15088,1,
4169,14839,15089,1,
4169,14843,15090,1,
15090,0,15091,2,
14845,12182,15092,0,
14846,0,15093,2,
14849,0,15094,2,
14847,0,15095,2,
13619,14848,15096,1,
14850,0,15097,2,
13784,14848,15098,0,
14852,14854,15099,1,
14851,0,15100,2,
14852,14854,15101,0,
14855,0,15102,2,
14857,0,15103,2,
14858,0,15104,2,
14861,0,15105,2,
14860,0,15106,2,
4676,14863,15107,0,
4158,14864,15108,1,
14561,14865,15109,0,
15002,14211,15110,0,
14867,14869,15111,0,
14866,14868,15112,0,
14567,14870,15113,0,
14872,14871,15114,0,
14570,14873,15115,0,
14575,14875,15116,0,
14232,14876,15117,0,
14248,14880,15118,0,
14585,14879,15119,0,
14240,14878,15120,0,
14588,14881,15121,0,
14593,14883,15122,0,
14596,14884,15123,0,
14262,14888,15124,0,
14606,14891,15125,0,
14265,14887,15126,0,
14601,14890,15127,0,
14877,0,15128,2,
14263,14889,15129,0,
14613,14892,15130,0,
14271,14896,15131,0,
14284,14900,15132,0,
14616,14898,15133,0,
14279,14897,15134,0,
14287,14904,15135,0,
14903,14283,15136,0,
14625,14905,15137,0,
14629,14907,15138,0,
14293,14906,15139,0,
14909,0,15140,2,
14299,14908,15141,0,
14303,14914,15142,0,
14862,0,15143,2,
14636,14913,15144,0,
14912,0,15145,2,
14199,14904,15146,0,
14642,14917,15147,0,
14919,0,15148,2,
14316,14920,15149,0,
14918,0,15150,2,
14922,10806,15151,1,
14921,0,15152,2,
14924,0,15153,2,
14656,14927,15154,0,
4193,14928,15155,1,
14929,0,15156,2,
14922,0,15157,2,
14653,14926,15158,0,
14330,14935,15159,0,
14930,0,15160,2,
14329,14931,15161,0,
14932,0,15162,2,
14933,0,15163,2,
14934,0,15164,2,
14938,10810,15165,1,
4169,14941,15166,1,
14940,14939,15167,0,
4408,14863,15168,0,
14944,14945,15169,0,
14946,14948,15170,0,
14947,14943,15171,0,
14674,14942,15172,0,
14682,14952,15173,0,
14938,0,15174,2,
14949,0,15175,2,
14681,14951,15176,0,
14679,14950,15177,0,
14958,14956,15178,0,
14957,14959,15179,0,
14954,0,15180,2,
14845,12182,15181,1,
4503,14863,15182,0,
14960,14963,15183,0,
14965,10825,15184,1,
14964,0,15185,2,
4176,14962,15186,1,
14699,14961,15187,0,
14968,14967,15188,0,
14970,12230,15189,0,
14711,14975,15190,0,
14973,14972,15191,0,
14390,14974,15192,0,
14977,14978,15193,0,
14981,11252,15194,0,
14400,14980,15195,0,
14406,14983,15196,0,
14723,14984,15197,0,
14737,14989,15198,0,
13248,14997,15199,1,
14995,14996,15200,0,
14999,14998,15201,0,
15000,15001,15202,0,
15003,15004,15203,0,
15007,15005,15204,0,
15008,15006,15205,0,
15010,15009,15206,0,
15012,15011,15207,0,
15014,15013,15208,0,
13900,15057,15209,0,
5347,14863,15210,0,
15015,11288,15211,0,
15017,0,15212,2,
15018,11334,15213,1,
14965,0,15214,2,
11481,15017,15215,0,
15018,0,15216,2,
4413,15019,15217,1,
15020,0,15218,2,
15021,0,15219,2,
15022,13676,15220,0,
13676,15022,15221,1,
13550,15023,15222,0,
15025,0,15223,2,
15030,0,15224,2,
15031,11347,15225,0,
15017,10637,15226,1,
15034,0,15227,2,
4668,14863,15228,0,
15044,11387,15229,0,
13736,15052,15230,0,
13328,15054,15231,0,
13329,15056,15232,0,
13745,15058,15233,0,
13746,15059,15234,0,
13330,15060,15235,0,
13747,15062,15236,0,
15065,0,15237,2,
13613,15074,15238,1,
15073,0,15239,2,
15077,0,15240,2,
13459,15076,15241,1,
15080,0,15242,2,
15083,0,15243,2,
13336,15084,15244,0,
15085,0,15245,2,
15086,0,15246,2,
15088,0,15247,2,
15089,0,15248,2,
14894,15129,15249,0,
14955,15177,15250,0,
14982,15195,15251,0,
15092,0,15252,2,
14186,15093,15253,0,
15095,13237,15254,0,
15096,0,15255,2,
13496,15094,15256,0,
14543,15097,15257,1,
15098,0,15258,2,
15096,14540,15259,0,
14853,15097,15260,0,
15101,0,15261,2,
14193,15102,15262,0,
15105,11870,15263,0,
15106,11873,15264,0,
15107,0,15265,2,
13248,15201,15266,1,
14563,15109,15267,0,
13376,15110,15268,1,
13248,15111,15269,1,
13248,15112,15270,1,
14568,15113,15271,0,
13248,15114,15272,1,
14564,15110,15273,0,
14573,15115,15274,0,
14882,15117,15275,0,
14584,15116,15276,0,
14597,15121,15277,0,
14886,15118,15278,0,
14885,15120,15279,0,
14598,15119,15280,0,
14599,15122,15281,0,
14600,15123,15282,0,
14895,15124,15283,0,
14609,15127,15284,0,
14893,15126,15285,0,
14608,15125,15286,0,
14899,15131,15287,0,
14618,15130,15288,0,
14620,15133,15289,0,
14901,15132,15290,0,
14902,15134,15291,0,
14627,15137,15292,0,
15136,0,15293,2,
15135,0,15294,2,
14910,15139,15295,0,
14632,15138,15296,0,
14911,15140,15297,1,
14915,15141,15298,0,
14911,15140,15299,0,
14916,15142,15300,0,
14639,15144,15301,0,
13646,15145,15302,0,
14645,15147,15303,0,
14923,15149,15304,0,
15150,12089,15305,0,
15151,0,15306,2,
14925,15145,15307,0,
15108,0,15308,2,
14658,15154,15309,0,
14661,15158,15310,0,
10806,15157,15311,0,
15164,11921,15312,0,
14936,15161,15313,0,
14937,15159,15314,0,
15155,0,15315,2,
15163,12092,15316,0,
15160,11194,15317,0,
15165,0,15318,2,
15168,0,15319,2,
13248,15167,15320,1,
15166,0,15321,2,
13248,15169,15322,1,
13248,15170,15323,1,
13248,15171,15324,1,
14684,15172,15325,0,
14953,15173,15326,0,
14690,15176,15327,0,
15175,11926,15328,0,
10810,15174,15329,0,
13248,15178,15330,1,
13248,15179,15331,1,
13638,15181,15332,0,
15185,11645,15333,0,
13248,15183,15334,1,
15182,0,15335,2,
14966,15187,15336,0,
15186,0,15337,2,
13248,15188,15338,1,
15189,11933,15339,0,
15185,11645,15340,1,
14712,15190,15341,0,
14976,15192,15342,0,
13248,15191,15343,1,
13248,15193,15344,1,
12323,15194,15345,0,
14724,15197,15346,0,
14985,15196,15347,0,
13950,15181,15348,0,
14990,15198,15349,0,
13248,15200,15350,1,
15199,0,15351,2,
13248,15202,15352,1,
12622,15244,15353,1,
13248,15203,15354,1,
13248,15205,15355,1,
13248,15204,15356,1,
13248,15206,15357,1,
13248,15207,15358,1,
13248,15208,15359,1,
15210,0,15360,2,
12329,15211,15361,0,
10825,15214,15362,0,
15215,0,15363,2,
15184,0,15364,2,
10637,15212,15365,0,
15213,0,15366,2,
11334,15216,15367,0,
15217,11335,15368,1,
15218,12129,15369,0,
15217,0,15370,2,
15219,11973,15371,0,
14131,15220,15372,1,
15222,0,15373,2,
15221,0,15374,2,
14106,15199,15375,1,
15220,14472,15376,0,
15221,15028,15377,0,
15224,12136,15378,0,
12337,15225,15379,0,
15226,0,15380,2,
15227,11985,15381,0,
15228,0,15382,2,
12343,15229,15383,0,
13813,15181,15384,0,
12918,15230,15385,1,
12622,15232,15386,1,
12622,15231,15387,1,
12918,15234,15388,1,
15209,0,15389,2,
12918,15233,15390,1,
12622,15235,15391,1,
12918,15236,15392,1,
15070,15237,15393,0,
15077,15238,15394,1,
15238,0,15395,2,
15239,14172,15396,0,
15241,0,15397,2,
12011,15241,15398,0,
13915,15209,15399,0,
15094,13496,15400,1,
12829,15181,15401,0,
13370,15181,15402,0,
15087,15094,15403,0,
15209,13536,15404,1,
15246,14841,15405,0,
12356,15252,15406,0,
15253,0,15407,2,
13621,15254,15408,1,
15256,0,15409,2,
15257,0,15410,2,
14186,15258,15411,0,
15259,0,15412,2,
15260,0,15413,2,
13792,15262,15414,1,
15262,0,15415,2,
15264,12205,15416,0,
15263,12070,15417,0,
15265,11141,15418,0,
14564,15268,15419,0,
13376,15267,15420,1,
15270,0,15421,2,
15268,14564,15422,1,
13376,15271,15423,1,
15272,0,15424,2,
15269,0,15425,2,
13376,15274,15426,1,
15275,0,15427,2,
13376,15276,15428,1,
15278,0,15429,2,
15279,0,15430,2,
13376,15280,15431,1,
13376,15277,15432,1,
13376,15282,15433,1,
13376,15281,15434,1,
13376,15286,15435,1,
15285,0,15436,2,
15249,0,15437,2,
13376,15284,15438,1,
13376,15288,15439,1,
15283,0,15440,2,
15290,0,15441,2,
13376,15289,15442,1,
15291,0,15443,2,
15287,0,15444,2,
15293,15294,15445,0,
13376,15292,15446,1,
13376,15296,15447,1,
15299,0,15448,2,
15302,0,15449,2,
15300,0,15450,2,
13376,15301,15451,1,
15295,0,15452,2,
15298,0,15453,2,
13376,15303,15454,1,
12090,15305,15455,0,
15304,0,15456,2,
15307,0,15457,2,
15306,15153,15458,0,
13376,15309,15459,1,
15311,0,15460,2,
13376,15310,15461,1,
12095,15312,15462,0,
10795,15317,15463,1,
12094,15316,15464,0,
15314,0,15465,2,
15313,0,15466,2,
15320,0,15467,2,
15319,11924,15468,0,
15323,0,15469,2,
15324,0,15470,2,
15322,0,15471,2,
13376,15325,15472,1,
10633,15250,15473,1,
12102,15328,15474,0,
15250,0,15475,2,
13376,15327,15476,1,
15329,0,15477,2,
15326,0,15478,2,
15330,0,15479,2,
15332,0,15480,2,
15331,0,15481,2,
15333,0,15482,2,
15334,0,15483,2,
15335,11932,15484,0,
12711,15336,15485,1,
15336,0,15486,2,
15338,0,15487,2,
4676,15340,15488,0,
4169,15339,15489,1,
13142,15342,15490,1,
15342,0,15491,2,
15343,0,15492,2,
13376,15341,15493,1,
15344,0,15494,2,
15251,0,15495,2,
12826,15251,15496,1,
4158,15345,15497,1,
13376,15346,15498,1,
15347,0,15499,2,
15348,0,15500,2,
15350,0,15501,2,
14106,15351,15502,0,
15266,0,15503,2,
15352,0,15504,2,
15354,0,15505,2,
15355,0,15506,2,
15356,0,15507,2,
15357,0,15508,2,
15358,0,15509,2,
15359,0,15510,2,
15360,11942,15511,0,
4413,15361,15512,1,
5347,15340,15513,0,
15362,0,15514,2,
15363,15366,15515,0,
15365,0,15516,2,
15367,0,15517,2,
15368,0,15518,2,
12130,15369,15519,0,
11335,15370,15520,0,
12131,15371,15521,0,
15372,0,15522,2,
15375,0,15523,2,
13869,15373,15524,0,
14776,15374,15525,0,
15375,15026,15526,1,
15376,0,15527,2,
15377,0,15528,2,
12137,15378,15529,0,
4668,15340,15530,0,
4176,15379,15531,1,
12140,15381,15532,0,
15382,11989,15533,0,
4408,15340,15534,0,
4503,15340,15535,0,
4193,15383,15536,1,
15384,0,15537,2,
15349,0,15538,2,
15385,0,15539,2,
15387,0,15540,2,
15386,0,15541,2,
15388,0,15542,2,
15391,0,15543,2,
15064,15389,15544,0,
15390,0,15545,2,
15392,0,15546,2,
13748,15389,15547,0,
15396,0,15548,2,
15240,15395,15549,0,
15398,0,15550,2,
15397,12156,15551,0,
15399,0,15552,2,
13760,15389,15553,0,
15400,15245,15554,1,
15401,0,15555,2,
15404,0,15556,2,
15403,0,15557,2,
15402,0,15558,2,
15400,15245,15559,0,
15353,0,15560,2,
15438,0,15561,2,
15406,0,15562,2,
15407,15255,15563,1,
13785,15409,15564,0,
15407,15255,15565,0,
15408,0,15566,2,
14192,15410,15567,0,
15410,14547,15568,0,
15411,15093,15569,0,
15414,0,15570,2,
13792,15415,15571,0,
4169,15416,15572,1,
4169,15417,15573,1,
15418,12071,15574,0,
15269,15419,15575,1,
15420,0,15576,2,
15422,15421,15577,0,
15273,15425,15578,0,
15426,14877,15579,1,
15428,15427,15580,0,
15426,15128,15581,0,
15428,15275,15582,1,
15428,0,15583,2,
15431,15430,15584,0,
15432,15429,15585,0,
15434,15283,15586,1,
15433,15285,15587,1,
15435,15287,15588,1,
15432,15278,15589,1,
15438,15437,15590,0,
15433,15436,15591,0,
15439,15291,15592,1,
15434,15440,15593,0,
15442,15441,15594,0,
15439,15443,15595,0,
15435,15444,15596,0,
15431,15279,15597,1,
15446,15295,15598,1,
15445,0,15599,2,
15447,15298,15600,1,
15442,15290,15601,1,
15451,15450,15602,0,
15449,14315,15603,1,
15446,15452,15604,0,
15447,15453,15605,0,
15449,14315,15606,0,
15454,15304,15607,1,
4158,15455,15608,1,
15454,15456,15609,0,
15458,15457,15610,0,
15459,15313,15611,1,
15461,15314,15612,1,
4193,15464,15613,1,
4158,15462,15614,1,
15461,15465,15615,0,
4676,15463,15616,0,
4408,15463,15617,0,
15459,15466,15618,0,
15451,15300,15619,1,
11638,15468,15620,0,
15472,15326,15621,1,
4193,15474,15622,1,
15476,15473,15623,0,
15475,11235,15624,0,
15472,15478,15625,0,
15480,14702,15626,0,
11646,15484,15627,0,
11647,15482,15628,0,
15485,0,15629,2,
15476,15473,15630,1,
12711,15486,15631,0,
15488,0,15632,2,
13266,15491,15633,0,
15489,0,15634,2,
12915,15495,15635,0,
15497,0,15636,2,
13401,15499,15637,0,
15499,13401,15638,1,
15500,14987,15639,0,
15502,15501,15640,0,
15422,15421,15641,1,
15438,15249,15642,1,
11672,15511,15643,0,
5347,15463,15644,0,
15512,11950,15645,1,
15513,0,15646,2,
15512,0,15647,2,
15165,15477,15648,0,
15460,15477,15649,0,
15515,0,15650,2,
15514,15516,15651,0,
4668,15463,15652,0,
4413,15519,15653,1,
15520,0,15654,2,
4413,15521,15655,1,
15350,15502,15656,1,
14775,15522,15657,1,
15524,13870,15658,0,
15525,0,15659,2,
15523,15026,15660,0,
15526,0,15661,2,
15027,15522,15662,0,
4176,15529,15663,1,
15530,0,15664,2,
4503,15463,15665,0,
15531,0,15666,2,
4176,15532,15667,1,
11738,15533,15668,0,
15534,0,15669,2,
15535,0,15670,2,
15536,0,15671,2,
15537,15048,15672,0,
15544,0,15673,2,
15547,0,15674,2,
15549,0,15675,2,
15548,15079,15676,0,
15551,0,15677,2,
15550,15242,15678,0,
15553,0,15679,2,
15555,13208,15680,0,
15405,15557,15681,0,
15558,13920,15682,0,
15559,0,15683,2,
12007,15556,15684,0,
15451,0,15685,2,
15257,15681,15686,1,
15562,11047,15687,0,
15563,0,15688,2,
14546,15566,15689,1,
15564,0,15690,2,
15565,0,15691,2,
15567,0,15692,2,
15100,15563,15693,0,
15569,0,15694,2,
14856,15566,15695,0,
14549,15570,15696,1,
15571,0,15697,2,
14859,15570,15698,0,
15572,0,15699,2,
15573,0,15700,2,
4169,15574,15701,1,
14439,15640,15702,1,
15575,15576,15703,1,
15578,14874,15704,1,
15575,0,15705,2,
14874,15578,15706,0,
15579,0,15707,2,
15580,0,15708,2,
15561,15249,15709,0,
15581,0,15710,2,
15584,0,15711,2,
15582,15583,15712,0,
15585,0,15713,2,
15586,0,15714,2,
15587,0,15715,2,
15591,0,15716,2,
15588,0,15717,2,
15590,0,15718,2,
15592,0,15719,2,
15593,0,15720,2,
15597,0,15721,2,
15596,0,15722,2,
15595,0,15723,2,
15297,15599,15724,0,
15598,0,15725,2,
15685,15300,15726,0,
15600,0,15727,2,
15601,0,15728,2,
15603,15148,15729,1,
15604,0,15730,2,
15602,0,15731,2,
15605,0,15732,2,
15606,0,15733,2,
15607,0,15734,2,
15603,15148,15735,0,
15608,0,15736,2,
15610,0,15737,2,
15609,0,15738,2,
15589,0,15739,2,
15611,0,15740,2,
15612,0,15741,2,
15616,0,15742,2,
15617,0,15743,2,
15614,0,15744,2,
15618,0,15745,2,
15613,0,15746,2,
4158,15620,15747,1,
15621,0,15748,2,
15594,0,15749,2,
15624,0,15750,2,
15623,0,15751,2,
15625,0,15752,2,
15622,0,15753,2,
14969,15626,15754,0,
4193,15627,15755,1,
15628,0,15756,2,
15615,0,15757,2,
15631,0,15758,2,
15632,11650,15759,0,
15633,0,15760,2,
15562,11047,15761,1,
15635,0,15762,2,
15637,0,15763,2,
14731,15639,15764,0,
15640,14750,15765,0,
15582,0,15766,2,
15642,0,15767,2,
4413,15643,15768,1,
15644,0,15769,2,
15645,0,15770,2,
15646,12243,15771,0,
15647,11950,15772,0,
15648,0,15773,2,
15650,15517,15774,0,
15651,15517,15775,0,
15652,0,15776,2,
15653,0,15777,2,
15655,11975,15778,1,
15656,15024,15779,1,
15655,0,15780,2,
15662,0,15781,2,
15657,0,15782,2,
15656,0,15783,2,
15659,15223,15784,0,
15658,0,15785,2,
15662,15661,15786,0,
15376,15661,15787,0,
15660,0,15788,2,
15657,13873,15789,0,
15663,0,15790,2,
15577,0,15791,2,
15664,12259,15792,0,
15665,0,15793,2,
15667,0,15794,2,
4176,15668,15795,1,
15669,12263,15796,0,
15670,12266,15797,0,
15049,15672,15798,0,
15393,15673,15799,0,
13916,15674,15800,0,
15676,0,15801,2,
15677,15552,15802,0,
14191,15564,15803,1,
13343,15680,15804,0,
15684,0,15805,2,
13762,15682,15806,0,
15803,15248,15807,1,
12622,15804,15808,1,
15687,0,15809,2,
14851,15688,15810,1,
15689,0,15811,2,
15691,15258,15812,0,
15568,15690,15813,0,
15413,15692,15814,0,
15693,0,15815,2,
15695,0,15816,2,
15696,0,15817,2,
13798,15697,15818,0,
15698,0,15819,2,
15701,0,15820,2,
15686,15091,15821,0,
15705,15420,15822,0,
15423,15704,15823,1,
15577,15703,15824,0,
15423,15704,15825,0,
15706,0,15826,2,
15712,0,15827,2,
15709,0,15828,2,
15711,15713,15829,0,
15589,15713,15830,0,
15716,15718,15831,0,
15696,15414,15832,0,
15594,15719,15833,0,
15724,0,15834,2,
15726,0,15835,2,
15730,15731,15836,0,
15733,14648,15837,0,
15735,0,15838,2,
15460,15737,15839,0,
15615,15740,15840,0,
15741,15740,15841,0,
15742,11221,15842,0,
15743,11224,15843,0,
15747,0,15844,2,
15750,15751,15845,0,
13248,15754,15846,1,
15756,11245,15847,1,
15756,11245,15848,0,
15755,0,15849,2,
15759,12322,15850,0,
13950,15761,15851,0,
13638,15761,15852,0,
13403,15763,15853,0,
13376,15764,15854,1,
15702,0,15855,2,
15765,0,15856,2,
15641,15703,15857,0,
15686,15091,15858,1,
15768,0,15859,2,
15769,11281,15860,0,
11955,15771,15861,0,
15772,0,15862,2,
15649,15737,15863,0,
15773,15364,15864,0,
15774,0,15865,2,
15776,11337,15866,0,
11715,15777,15867,1,
15777,11715,15868,0,
15779,0,15869,2,
15780,12133,15870,0,
15783,15024,15871,0,
15266,15702,15872,1,
15527,15781,15873,0,
13688,15782,15874,0,
15784,15785,15875,0,
15786,0,15876,2,
15787,0,15877,2,
15789,0,15878,2,
11983,15792,15879,0,
15793,11355,15880,0,
11992,15796,15881,0,
15795,0,15882,2,
13813,15761,15883,0,
11994,15797,15884,0,
15798,0,15885,2,
13370,15761,15886,0,
12829,15761,15887,0,
15799,0,15888,2,
14817,15800,15889,1,
14508,15800,15890,1,
15678,15801,15891,0,
15802,15679,15892,0,
15803,15248,15893,0,
12918,15806,15894,1,
15894,0,15895,2,
15821,0,15896,2,
11822,15809,15897,0,
15099,15810,15898,0,
15689,15812,15899,1,
15813,0,15900,2,
15811,15412,15901,0,
15815,15261,15902,0,
15101,15810,15903,0,
14199,15818,15904,1,
15824,0,15905,2,
15823,15424,15906,0,
15822,0,15907,2,
15825,0,15908,2,
15829,0,15909,2,
15714,15828,15910,0,
15715,15827,15911,0,
15816,15819,15912,0,
15830,0,15913,2,
15832,0,15914,2,
15818,0,15915,2,
15831,15720,15916,0,
15833,0,15917,2,
15834,15448,15918,0,
15728,15835,15919,0,
15151,15837,15920,1,
15839,0,15921,2,
15840,0,15922,2,
15842,11925,15923,0,
11927,15843,15924,0,
15845,0,15925,2,
15846,0,15926,2,
4676,15847,15927,0,
15485,15845,15928,1,
15848,0,15929,2,
4169,15850,15930,1,
15851,0,15931,2,
15852,0,15932,2,
15853,0,15933,2,
15503,15855,15934,0,
15859,11943,15935,0,
11944,15860,15936,0,
4668,15847,15937,0,
5347,15847,15938,0,
4413,15861,15939,1,
15863,0,15940,2,
15865,15518,15941,0,
11972,15866,15942,0,
15868,0,15943,2,
4503,15847,15944,0,
15870,0,15945,2,
15660,15869,15946,0,
15874,0,15947,2,
11943,15859,15948,1,
15029,15872,15949,0,
15871,0,15950,2,
15873,0,15951,2,
15661,15869,15952,0,
15875,0,15953,2,
15876,15788,15954,0,
14777,15872,15955,1,
15526,15873,15956,1,
15823,15424,15957,1,
4176,15879,15958,1,
11987,15880,15959,0,
4408,15847,15960,0,
15883,0,15961,2,
4158,15881,15962,1,
4193,15884,15963,1,
15886,0,15964,2,
15887,0,15965,2,
15888,15394,15966,0,
15888,15394,15967,1,
15889,12164,15968,0,
15891,0,15969,2,
15890,12272,15970,0,
15858,0,15971,2,
15893,0,15972,2,
15808,0,15973,2,
4193,15959,15974,1,
15897,0,15975,2,
15898,0,15976,2,
15814,15900,15977,0,
15899,0,15978,2,
15901,15694,15979,0,
15103,15899,15980,0,
15903,0,15981,2,
15904,0,15982,2,
15906,0,15983,2,
15907,15905,15984,0,
15826,15908,15985,0,
15910,0,15986,2,
15717,15909,15987,0,
14199,15915,15988,0,
15917,15723,15989,0,
15717,15913,15990,0,
15297,15915,15991,0,
15146,15915,15992,0,
15919,15719,15993,0,
15920,15162,15994,1,
15920,15162,15995,0,
15921,15318,15996,1,
15922,15745,15997,0,
15921,15318,15998,0,
4158,15924,15999,1,
4169,15923,16000,1,
15629,15925,16001,0,
15927,0,16002,2,
15928,0,16003,2,
11654,15929,16004,0,
15493,15928,16005,0,
15930,0,16006,2,
15931,14986,16007,0,
15932,14728,16008,0,
15933,13273,16009,1,
15934,0,16010,2,
15935,0,16011,2,
4413,15936,16012,1,
15937,0,16013,2,
15938,0,16014,2,
15939,0,16015,2,
15939,12394,16016,1,
15864,15940,16017,0,
4176,15942,16018,1,
11720,15943,16019,0,
15944,0,16020,2,
12134,15945,16021,0,
15946,0,16022,2,
15952,15951,16023,0,
15947,15528,16024,0,
15949,0,16025,2,
15954,15877,16026,0,
15857,15957,16027,0,
13560,15956,16028,0,
15956,0,16029,2,
15958,0,16030,2,
15933,13273,16031,0,
15960,0,16032,2,
15962,0,16033,2,
15961,15045,16034,0,
15963,0,16035,2,
15964,13914,16036,0,
15965,13202,16037,0,
15896,15971,16038,0,
15966,0,16039,2,
15972,15896,16040,0,
12270,15967,16041,0,
15957,0,16042,2,
15967,0,16043,2,
15892,15969,16044,0,
15970,0,16045,2,
15975,11048,16046,0,
14857,15978,16047,1,
15979,0,16048,2,
15902,15977,16049,0,
15980,0,16050,2,
15977,0,16051,2,
15815,15981,16052,0,
14862,15982,16053,1,
15984,15983,16054,0,
15985,0,16055,2,
15986,15720,16056,0,
15987,15913,16057,0,
15988,0,16058,2,
15143,15982,16059,0,
15991,15146,16060,0,
15989,0,16061,2,
15990,15725,16062,0,
15992,0,16063,2,
15993,15727,16064,0,
15729,15994,16065,0,
15735,15994,16066,0,
15995,0,16067,2,
15996,0,16068,2,
15998,0,16069,2,
15180,15996,16070,0,
15999,0,16071,2,
16000,0,16072,2,
16001,0,16073,2,
15493,16003,16074,1,
16002,10836,16075,0,
15975,11048,16076,1,
16004,0,16077,2,
11253,16004,16078,1,
16005,0,16079,2,
14727,16007,16080,0,
14988,16008,16081,0,
16009,15349,16082,1,
15856,16010,16083,0,
11945,16011,16084,0,
16012,0,16085,2,
16013,11681,16086,0,
16014,11688,16087,0,
16015,12394,16088,0,
16016,0,16089,2,
16017,0,16090,2,
16018,0,16091,2,
15778,16019,16092,1,
16019,0,16093,2,
16020,11722,16094,0,
15950,16022,16095,0,
15948,16021,16096,1,
16021,0,16097,2,
16023,0,16098,2,
16024,15953,16099,0,
16025,15955,16100,0,
15984,0,16101,2,
16026,0,16102,2,
16028,0,16103,2,
16029,13702,16104,0,
16026,15779,16105,1,
15974,0,16106,2,
16031,0,16107,2,
16032,11749,16108,0,
15046,16034,16109,0,
16009,15538,16110,0,
13759,16036,16111,0,
15675,16039,16112,0,
15977,15099,16113,1,
13337,16037,16114,0,
16038,0,16115,2,
16041,0,16116,2,
16040,0,16117,2,
16042,15983,16118,0,
12157,16043,16119,0,
16044,0,16120,2,
16046,0,16121,2,
16052,15976,16122,0,
16049,0,16123,2,
15816,16048,16124,0,
15898,16051,16125,0,
15805,16120,16126,0,
15707,16055,16127,0,
16053,0,16128,2,
15912,16048,16129,0,
16057,0,16130,2,
16056,0,16131,2,
16058,14643,16132,0,
16059,0,16133,2,
16060,0,16134,2,
15727,16061,16135,0,
15445,16063,16136,0,
16064,15734,16137,0,
15099,16051,16138,0,
16066,0,16139,2,
14954,16068,16140,1,
16069,15477,16141,0,
16070,0,16142,2,
15758,16073,16143,0,
16075,11934,16144,0,
16074,0,16145,2,
4676,16078,16146,0,
13370,16076,16147,0,
11656,16077,16148,0,
13376,16080,16149,1,
13638,16076,16150,0,
13248,16081,16151,1,
13950,16076,16152,0,
16082,0,16153,2,
16083,0,16154,2,
16055,15707,16155,1,
16084,0,16156,2,
11946,16084,16157,1,
11948,16086,16158,0,
11949,16077,16159,0,
4668,16078,16160,0,
11956,16087,16161,0,
16088,0,16162,2,
5347,16078,16163,0,
15775,16090,16164,0,
16092,0,16165,2,
15778,16093,16166,0,
11978,16094,16167,0,
15641,16083,16168,1,
16096,0,16169,2,
4503,16078,16170,0,
16095,16025,16171,0,
16099,0,16172,2,
15514,16090,16173,0,
15948,16097,16174,0,
15957,16101,16175,0,
16100,0,16176,2,
16102,15869,16177,0,
15651,16090,16178,0,
16104,0,16179,2,
16105,13566,16180,0,
16105,0,16181,2,
13451,16107,16182,0,
11995,16108,16183,0,
4408,16078,16184,0,
16109,0,16185,2,
16110,0,16186,2,
13813,16076,16187,0,
12918,16111,16188,1,
16112,0,16189,2,
12622,16114,16190,1,
16113,0,16191,2,
16112,15554,16192,1,
15968,16116,16193,0,
16118,0,16194,2,
16119,0,16195,2,
12829,16076,16196,0,
16116,16045,16197,0,
16190,0,16198,2,
11823,16121,16199,0,
16122,0,16200,2,
16124,0,16201,2,
16125,0,16202,2,
16127,0,16203,2,
15914,16128,16204,0,
16129,0,16205,2,
16130,15722,16206,0,
15721,16131,16207,0,
14904,16132,16208,1,
15918,16134,16209,0,
16135,0,16210,2,
15297,16136,16211,1,
16138,0,16212,2,
16139,16067,16213,0,
15184,16141,16214,1,
16143,0,16215,2,
4169,16144,16216,1,
16148,0,16217,2,
16147,0,16218,2,
16146,0,16219,2,
16150,0,16220,2,
16152,0,16221,2,
16151,0,16222,2,
15857,16154,16223,0,
16155,15504,16224,0,
16196,0,16225,2,
12114,16156,16226,0,
16157,16085,16227,0,
4176,16158,16228,1,
16159,0,16229,2,
16160,0,16230,2,
4413,16161,16231,1,
16162,12498,16232,0,
16163,0,16233,2,
16164,0,16234,2,
16166,0,16235,2,
4193,16167,16236,1,
16171,16098,16237,0,
16168,15033,16238,1,
16170,0,16239,2,
16157,16085,16240,1,
15641,16154,16241,0,
16172,15878,16242,0,
16174,0,16243,2,
16173,0,16244,2,
16175,0,16245,2,
16027,16154,16246,0,
16168,0,16247,2,
16177,0,16248,2,
16155,15504,16249,1,
16178,0,16250,2,
16180,0,16251,2,
16181,13709,16252,0,
16182,0,16253,2,
4158,16183,16254,1,
16184,0,16255,2,
10606,16182,16256,1,
16187,0,16257,2,
16188,0,16258,2,
15088,16191,16259,1,
15247,16191,16260,0,
15554,16189,16261,0,
16192,0,16262,2,
16193,0,16263,2,
12173,16192,16264,0,
16126,0,16265,2,
16197,16265,16266,0,
16199,0,16267,2,
16047,16200,16268,0,
16201,15817,16269,1,
16201,15817,16270,0,
16052,16202,16271,0,
15708,16203,16272,0,
16204,16205,16273,0,
16206,0,16274,2,
16208,0,16275,2,
14921,16208,16276,1,
15729,16209,16277,1,
16210,15732,16278,0,
16209,0,16279,2,
16211,0,16280,2,
14929,16211,16281,0,
14929,16211,16282,1,
16212,15261,16283,0,
16214,15337,16284,1,
16215,15490,16285,0,
16216,0,16286,2,
16217,11659,16287,0,
16219,11661,16288,0,
16215,15490,16289,1,
16218,13844,16290,0,
16220,14740,16291,0,
16221,14994,16292,0,
16223,0,16293,2,
16224,0,16294,2,
15710,16203,16295,0,
16227,0,16296,2,
16226,0,16297,2,
16228,0,16298,2,
11951,16229,16299,0,
16230,10870,16300,0,
16231,0,16301,2,
16233,10881,16302,0,
16232,0,16303,2,
15941,16234,16304,0,
16236,0,16305,2,
16239,10911,16306,0,
16238,0,16307,2,
16240,0,16308,2,
16237,0,16309,2,
16244,15380,16310,1,
16242,0,16311,2,
16241,0,16312,2,
16247,15033,16313,0,
16214,15337,16314,0,
16244,15380,16315,0,
16245,15983,16316,0,
16246,0,16317,2,
16248,15950,16318,0,
15666,16240,16319,0,
15515,16250,16320,0,
10606,16253,16321,0,
16255,10962,16322,0,
16254,0,16323,2,
16256,15798,16324,1,
16256,0,16325,2,
16257,15061,16326,0,
16259,0,16327,2,
16261,0,16328,2,
16260,0,16329,2,
13408,16225,16330,0,
16264,0,16331,2,
16195,16263,16332,0,
16262,12248,16333,0,
16194,16249,16334,0,
16267,10658,16335,0,
16268,16123,16336,0,
16269,15104,16337,1,
16270,0,16338,2,
16047,16271,16339,1,
16269,15104,16340,0,
16272,15710,16341,0,
16273,0,16342,2,
15725,16274,16343,0,
15152,16275,16344,0,
16278,0,16345,2,
16277,0,16346,2,
15729,16279,16347,0,
15156,16280,16348,0,
16281,0,16349,2,
15810,16283,16350,1,
16065,16279,16351,0,
16285,0,16352,2,
16267,10658,16353,1,
15498,16289,16354,1,
15498,16289,16355,0,
10843,16287,16356,1,
13656,16290,16357,0,
16288,11663,16358,0,
14993,16291,16359,0,
14742,16292,16360,0,
16054,16293,16361,0,
15683,16328,16362,0,
16295,0,16363,2,
16333,0,16364,2,
16297,16296,16365,0,
16299,0,16366,2,
11953,16300,16367,0,
12330,16301,16368,1,
12330,16301,16369,0,
11957,16302,16370,0,
16304,0,16371,2,
11982,16306,16372,0,
16307,16176,16373,0,
15531,16308,16374,1,
16309,16176,16375,0,
16310,15790,16376,1,
15984,16293,16377,0,
16311,16103,16378,0,
16312,15791,16379,0,
16310,15790,16380,0,
16313,0,16381,2,
16316,16317,16382,0,
16315,0,16383,2,
15955,16318,16384,1,
16319,0,16385,2,
16314,0,16386,2,
16320,0,16387,2,
16321,0,16388,2,
12000,16322,16389,0,
16325,15885,16390,0,
15063,16326,16391,0,
16327,16115,16392,0,
16266,0,16393,2,
16330,12622,16394,1,
12710,16330,16395,1,
16327,15807,16396,0,
16335,0,16397,2,
16336,0,16398,2,
16337,0,16399,2,
16338,15819,16400,0,
16340,0,16401,2,
16339,0,16402,2,
16341,0,16403,2,
16133,16342,16404,0,
16343,0,16405,2,
16344,0,16406,2,
15734,16345,16407,0,
16347,0,16408,2,
15155,16346,16409,1,
16348,0,16410,2,
15315,16346,16411,0,
16350,0,16412,2,
16351,0,16413,2,
15760,16352,16414,0,
13370,16353,16415,0,
13638,16353,16416,0,
4169,16358,16417,1,
16355,0,16418,2,
12918,16357,16419,1,
4676,16356,16420,0,
13248,16359,16421,1,
13376,16360,16422,1,
16361,0,16423,2,
15766,16363,16424,0,
16363,15766,16425,1,
16365,0,16426,2,
4176,16367,16427,1,
16366,10574,16428,0,
16366,10574,16429,1,
4668,16356,16430,0,
16368,16232,16431,1,
16369,0,16432,2,
4413,16370,16433,1,
16368,16303,16434,0,
5347,16356,16435,0,
16396,16115,16436,0,
16362,0,16437,2,
15654,16371,16438,0,
4193,16372,16439,1,
16375,0,16440,2,
16373,16309,16441,0,
15703,16379,16442,1,
16314,16376,16443,0,
16284,16376,16444,0,
16378,0,16445,2,
15957,16377,16446,1,
16383,15516,16447,0,
16380,0,16448,2,
16249,16382,16449,1,
16384,13568,16450,0,
16384,0,16451,2,
16387,15517,16452,0,
4503,16356,16453,0,
10952,16388,16454,0,
13950,16353,16455,0,
4158,16389,16456,1,
4408,16356,16457,0,
13813,16353,16458,0,
16390,0,16459,2,
16391,0,16460,2,
12829,16353,16461,0,
16362,15807,16462,1,
16392,16117,16463,0,
16332,16393,16464,0,
11498,16397,16465,0,
16050,16398,16466,0,
16053,16400,16467,1,
15699,16402,16468,0,
15911,16403,16469,0,
16404,0,16470,2,
16050,16401,16471,0,
16399,16401,16472,0,
16409,0,16473,2,
16408,15838,16474,0,
16407,0,16475,2,
16406,16410,16476,0,
16411,0,16477,2,
16405,15730,16478,0,
15321,16412,16479,0,
16213,16413,16480,0,
15166,16412,16481,1,
15572,16402,16482,1,
16414,0,16483,2,
16415,0,16484,2,
16416,0,16485,2,
16420,0,16486,2,
16419,0,16487,2,
16417,0,16488,2,
16421,0,16489,2,
16334,16423,16490,0,
16424,0,16491,2,
16425,15505,16492,1,
16425,15505,16493,0,
16442,15035,16494,1,
16426,12240,16495,0,
16427,0,16496,2,
16428,0,16497,2,
10394,16428,16498,1,
16498,10377,16499,0,
10394,16499,16500,1,
16430,0,16501,2,
4668,16429,16502,0,
16431,0,16503,2,
12331,16432,16504,0,
16433,0,16505,2,
16434,0,16506,2,
16435,0,16507,2,
16464,16331,16508,0,
16436,16437,16509,0,
16449,15037,16510,1,
15867,16438,16511,1,
16438,0,16512,2,
16426,12240,16513,1,
16441,0,16514,2,
16439,0,16515,2,
16440,16238,16516,0,
16443,0,16517,2,
16449,14783,16518,0,
16445,16179,16519,0,
16446,0,16520,2,
16442,0,16521,2,
16449,0,16522,2,
15213,16447,16523,1,
16450,0,16524,2,
13714,16451,16525,0,
15368,16452,16526,1,
4503,16429,16527,0,
16453,0,16528,2,
4676,16429,16529,0,
13583,16454,16530,1,
16454,0,16531,2,
16455,0,16532,2,
16456,0,16533,2,
5347,16429,16534,0,
16457,0,16535,2,
4408,16429,16536,0,
16458,0,16537,2,
16461,0,16538,2,
16437,15807,16539,0,
16462,0,16540,2,
16463,0,16541,2,
16465,11662,16542,1,
9850,16465,16543,0,
16466,0,16544,2,
16467,0,16545,2,
16469,0,16546,2,
16470,16276,16547,0,
16471,16398,16548,0,
16472,0,16549,2,
16470,16276,16550,1,
15308,16467,16551,0,
16475,15738,16552,0,
16349,16473,16553,0,
15994,16474,16554,1,
16479,0,16555,2,
16509,0,16556,2,
16480,0,16557,2,
16140,16480,16558,1,
16482,0,16559,2,
16483,15496,16560,0,
16484,13845,16561,0,
11664,16486,16562,0,
16485,14734,16563,0,
16483,15496,16564,1,
16490,0,16565,2,
16491,15708,16566,0,
16493,0,16567,2,
16508,0,16568,2,
16381,16514,16569,0,
16495,0,16570,2,
10377,16497,16571,0,
16500,0,16572,2,
16502,0,16573,2,
16501,11691,16574,0,
12121,16504,16575,1,
16504,0,16576,2,
16507,11697,16577,0,
16511,0,16578,2,
15867,16512,16579,0,
16513,13878,16580,1,
16516,0,16581,2,
16494,0,16582,2,
14784,16520,16583,1,
16519,0,16584,2,
16518,0,16585,2,
16517,16448,16586,0,
16522,15037,16587,0,
16523,0,16588,2,
16521,15035,16589,0,
16513,13878,16590,0,
16252,16524,16591,0,
16525,0,16592,2,
15794,16523,16593,0,
15038,16520,16594,0,
16527,0,16595,2,
16526,0,16596,2,
16528,11740,16597,0,
16510,0,16598,2,
15882,16526,16599,0,
16529,0,16600,2,
13732,16531,16601,0,
16530,16185,16602,0,
16532,15050,16603,0,
16535,11765,16604,0,
16534,0,16605,2,
16530,16109,16606,1,
16536,0,16607,2,
16537,15067,16608,0,
16481,0,16609,2,
16468,0,16610,2,
16538,13211,16611,0,
16540,12392,16612,0,
16539,0,16613,2,
16540,0,16614,2,
16329,16541,16615,0,
16612,0,16616,2,
16568,16364,16617,0,
12348,16614,16618,0,
16543,0,16619,2,
16544,16399,16620,1,
16337,16544,16621,0,
15108,16545,16622,1,
15916,16546,16623,0,
16547,0,16624,2,
16550,15736,16625,0,
16550,15736,16626,1,
16548,0,16627,2,
16551,0,16628,2,
16554,0,16629,2,
16553,0,16630,2,
16481,16555,16631,0,
16556,16555,16632,0,
16558,0,16633,2,
16140,16557,16634,0,
16560,0,16635,2,
16542,12969,16636,0,
13658,16561,16637,0,
13638,16542,16638,0,
15854,16564,16639,1,
15854,16564,16640,0,
14991,16563,16641,0,
16562,11665,16642,0,
16565,16294,16643,0,
15716,16546,16644,0,
15831,16546,16645,0,
15587,16566,16646,1,
16615,16556,16647,0,
12393,16570,16648,0,
16571,0,16649,2,
4668,16572,16650,0,
11693,16574,16651,0,
16573,11306,16652,0,
16575,16505,16653,1,
16575,16505,16654,0,
12247,16576,16655,0,
11698,16577,16656,0,
16091,16578,16657,0,
16579,0,16658,2,
16580,0,16659,2,
16569,0,16660,2,
16581,16514,16661,0,
16584,16251,16662,0,
16583,0,16663,2,
16589,0,16664,2,
16030,16580,16665,0,
16587,0,16666,2,
15667,16588,16667,1,
16590,0,16668,2,
16591,0,16669,2,
16569,16494,16670,1,
16593,0,16671,2,
16594,0,16672,2,
4503,16572,16673,0,
15795,16596,16674,1,
16595,11370,16675,0,
11742,16597,16676,0,
16599,0,16677,2,
16018,16578,16678,1,
16600,11401,16679,0,
16602,0,16680,2,
13635,16542,16681,0,
16601,0,16682,2,
4676,16572,16683,0,
14805,16603,16684,0,
4408,16572,16685,0,
13813,16542,16686,0,
11768,16604,16687,0,
16605,11429,16688,0,
5347,16572,16689,0,
16607,11430,16690,0,
15071,16608,16691,0,
12829,16542,16692,0,
13342,16611,16693,0,
15972,16613,16694,0,
16606,0,16695,2,
16619,11050,16696,0,
16620,0,16697,2,
16621,0,16698,2,
16623,0,16699,2,
16406,16624,16700,0,
16622,16549,16701,0,
16625,0,16702,2,
16626,0,16703,2,
16476,16624,16704,0,
15613,16629,16705,1,
16630,16477,16706,0,
16624,16477,16707,0,
16551,16626,16708,0,
15746,16629,16709,0,
16631,0,16710,2,
16632,16615,16711,0,
16634,0,16712,2,
15622,16633,16713,1,
15753,16633,16714,0,
15762,16635,16715,0,
16636,0,16716,2,
12918,16637,16717,1,
16638,0,16718,2,
4169,16642,16719,1,
13248,16641,16720,1,
16640,0,16721,2,
16694,0,16722,2,
12622,16693,16723,1,
16643,0,16724,2,
16645,0,16725,2,
16644,0,16726,2,
16646,15507,16727,0,
16646,15507,16728,1,
11679,16648,16729,1,
16648,0,16730,2,
16649,10569,16731,0,
16650,0,16732,2,
4176,16651,16733,1,
11694,16652,16734,0,
16654,0,16735,2,
16655,0,16736,2,
4413,16656,16737,1,
16657,0,16738,2,
16492,16643,16739,1,
15958,16659,16740,1,
16582,16660,16741,0,
16661,0,16742,2,
16582,16663,16743,0,
16662,16524,16744,0,
16665,0,16745,2,
16589,16663,16746,0,
16669,16592,16747,0,
16661,13570,16748,0,
16670,13886,16749,0,
16670,0,16750,2,
11743,16675,16751,0,
16673,0,16752,2,
4193,16676,16753,1,
16678,0,16754,2,
16679,11758,16755,0,
16681,0,16756,2,
16682,16680,16757,0,
16683,0,16758,2,
13376,16684,16759,1,
16685,0,16760,2,
16686,0,16761,2,
4158,16687,16762,1,
11772,16688,16763,0,
16689,0,16764,2,
11775,16690,16765,0,
16691,0,16766,2,
16692,0,16767,2,
16617,16616,16768,0,
16647,0,16769,2,
16618,0,16770,2,
15573,16697,16771,1,
16698,16401,16772,0,
15700,16697,16773,0,
16722,15858,16774,1,
16207,16699,16775,0,
16700,0,16776,2,
16701,16627,16777,0,
16703,16702,16778,0,
16628,16702,16779,0,
16704,0,16780,2,
16706,0,16781,2,
16705,0,16782,2,
16707,16476,16783,0,
16708,0,16784,2,
16709,0,16785,2,
16711,0,16786,2,
16713,0,16787,2,
16142,16712,16788,0,
16714,0,16789,2,
12829,16696,16790,0,
16716,13846,16791,0,
15638,16715,16792,1,
13370,16696,16793,0,
16715,0,16794,2,
16717,0,16795,2,
16696,0,16796,2,
16718,14733,16797,0,
16720,0,16798,2,
5347,16731,16799,0,
16724,16492,16800,0,
16726,15767,16801,1,
15910,16725,16802,0,
15767,16726,16803,0,
16729,0,16804,2,
11679,16730,16805,0,
16731,0,16806,2,
4503,16731,16807,0,
16732,11314,16808,0,
16733,0,16809,2,
4176,16734,16810,1,
16736,16735,16811,0,
16737,0,16812,2,
16658,16738,16813,0,
16739,15036,16814,1,
16739,0,16815,2,
16741,0,16816,2,
16742,13713,16817,0,
16743,16660,16818,0,
16744,0,16819,2,
16668,16745,16820,0,
16727,0,16821,2,
16746,0,16822,2,
4408,16731,16823,0,
16748,0,16824,2,
16749,0,16825,2,
16750,14146,16826,0,
16752,11381,16827,0,
4193,16751,16828,1,
16753,0,16829,2,
13638,16696,16830,0,
4169,16755,16831,1,
16757,0,16832,2,
16756,15053,16833,0,
16758,11407,16834,0,
13950,16696,16835,0,
16760,11425,16836,0,
16719,0,16837,2,
14506,16757,16838,1,
4668,16731,16839,0,
16761,15069,16840,0,
16762,0,16841,2,
16764,11437,16842,0,
4413,16763,16843,1,
16696,13813,16844,0,
4676,16731,16845,0,
4158,16765,16846,1,
16769,16609,16847,0,
16769,16609,16848,1,
16767,13209,16849,0,
16115,16722,16850,0,
16768,0,16851,2,
16723,0,16852,2,
16838,16391,16853,1,
12349,16848,16854,0,
16850,0,16855,2,
16771,0,16856,2,
16622,16772,16857,1,
16773,0,16858,2,
16062,16775,16859,0,
16775,0,16860,2,
16776,16282,16861,1,
16777,0,16862,2,
16775,15990,16863,0,
16776,16282,16864,0,
16778,0,16865,2,
16553,16780,16866,0,
16783,0,16867,2,
16782,16781,16868,0,
16777,16626,16869,0,
16784,16702,16870,0,
16709,16787,16871,0,
16284,16788,16872,1,
16785,16789,16873,0,
16713,16789,16874,0,
16790,0,16875,2,
16792,0,16876,2,
13659,16791,16877,0,
15638,16794,16878,0,
13370,16796,16879,0,
16793,0,16880,2,
14992,16797,16881,0,
13638,16796,16882,0,
16799,0,16883,2,
16800,0,16884,2,
16802,0,16885,2,
16801,15506,16886,1,
16801,15506,16887,0,
16803,0,16888,2,
14767,16804,16889,1,
15016,16804,16890,0,
16805,0,16891,2,
4503,16806,16892,0,
16807,0,16893,2,
11696,16808,16894,0,
16810,0,16895,2,
4668,16806,16896,0,
16811,0,16897,2,
16813,0,16898,2,
16788,0,16899,2,
16814,0,16900,2,
16815,15036,16901,0,
16816,16664,16902,0,
16817,0,16903,2,
16818,0,16904,2,
4408,16806,16905,0,
16822,16672,16906,0,
16820,0,16907,2,
16823,0,16908,2,
11745,16827,16909,0,
16828,0,16910,2,
16830,0,16911,2,
14811,16833,16912,0,
13950,16796,16913,0,
14506,16832,16914,0,
16831,0,16915,2,
16834,11762,16916,0,
4676,16806,16917,0,
13813,16796,16918,0,
16835,0,16919,2,
12829,16796,16920,0,
16838,0,16921,2,
16839,0,16922,2,
11770,16836,16923,0,
15072,16840,16924,0,
16559,16786,16925,0,
11778,16842,16926,0,
16844,0,16927,2,
16843,0,16928,2,
16846,0,16929,2,
16845,0,16930,2,
5347,16806,16931,0,
16847,0,16932,2,
16848,0,16933,2,
13341,16849,16934,0,
16774,0,16935,2,
12253,16774,16936,0,
16851,16770,16937,0,
16854,0,16938,2,
16468,16856,16939,0,
16857,0,16940,2,
16859,0,16941,2,
15711,16860,16942,0,
16861,0,16943,2,
16863,0,16944,2,
16864,0,16945,2,
16779,16862,16946,0,
16628,16862,16947,0,
16866,0,16948,2,
15744,16861,16949,0,
16868,16867,16950,0,
16559,16856,16951,0,
16869,0,16952,2,
16936,0,16953,2,
16872,0,16954,2,
16871,0,16955,2,
16874,0,16956,2,
12918,16877,16957,1,
13145,16875,16958,0,
16149,16876,16959,0,
16879,0,16960,2,
13847,16880,16961,0,
16878,0,16962,2,
16882,0,16963,2,
13248,16881,16964,1,
16149,16876,16965,1,
16567,16884,16966,0,
16885,15720,16967,0,
16728,16886,16968,0,
16727,16886,16969,0,
16887,0,16970,2,
16888,15718,16971,0,
16889,0,16972,2,
11952,16891,16973,0,
16890,0,16974,2,
16892,0,16975,2,
11315,16893,16976,0,
4176,16894,16977,1,
16896,0,16978,2,
16897,12451,16979,1,
16906,16904,16980,0,
16165,16898,16981,0,
16284,16899,16982,0,
16444,16899,16983,0,
16585,16900,16984,0,
16901,0,16985,2,
16903,16819,16986,0,
16889,16298,16987,1,
16583,16902,16988,1,
16905,0,16989,2,
16904,16666,16990,0,
16886,0,16991,2,
16900,16585,16992,0,
11380,16908,16993,0,
4193,16909,16994,1,
16898,16165,16995,1,
14804,16911,16996,0,
16914,0,16997,2,
16913,0,16998,2,
13376,16912,16999,1,
16897,12451,17000,0,
16917,0,17001,2,
4169,16916,17002,1,
16918,0,17003,2,
15068,16919,17004,0,
16921,16460,17005,0,
4158,16923,17006,1,
11440,16922,17007,0,
16920,0,17008,2,
13912,16924,17009,1,
16925,16710,17010,0,
4413,16926,17011,1,
15078,16927,17012,0,
16924,0,17013,2,
11464,16930,17014,0,
16932,16555,17015,0,
16931,0,17016,2,
11272,16883,17017,0,
16935,12350,17018,0,
16855,15896,17019,0,
12622,16934,17020,1,
12252,16933,17021,0,
4512,17017,17022,1,
4169,17014,17023,1,
16939,0,17024,2,
15701,16940,17025,1,
15820,16940,17026,0,
16405,16941,17027,0,
16942,0,17028,2,
15614,16943,17029,1,
16478,16941,17030,0,
16206,16944,17031,0,
16945,16410,17032,0,
16946,0,17033,2,
16626,16947,17034,1,
16949,0,17035,2,
16948,16477,17036,0,
16950,0,17037,2,
16953,16938,17038,0,
16870,16952,17039,0,
16951,16710,17040,0,
16950,16787,17041,0,
16955,16789,17042,0,
15755,16954,17043,1,
15849,16954,17044,0,
16957,0,17045,2,
16959,0,17046,2,
12622,16958,17047,1,
13404,16960,17048,0,
12918,16961,17049,1,
16964,0,17050,2,
14741,16963,17051,0,
17020,0,17052,2,
16966,0,17053,2,
16969,0,17054,2,
15597,16967,17055,1,
15586,16971,17056,1,
16972,16298,17057,0,
15645,16973,17058,1,
16973,0,17059,2,
11303,16975,17060,0,
4193,16976,17061,1,
16977,0,17062,2,
11319,16978,17063,0,
16979,16812,17064,1,
4176,17007,17065,1,
16981,0,17066,2,
16982,0,17067,2,
16983,0,17068,2,
16728,16966,17069,1,
16984,0,17070,2,
16666,16985,17071,0,
14787,16988,17072,0,
16986,16747,17073,0,
16987,16820,17074,1,
16987,0,17075,2,
16988,0,17076,2,
16990,16906,17077,0,
11375,16989,17078,0,
16980,0,17079,2,
4158,16993,17080,1,
16980,16510,17081,1,
16995,13892,17082,1,
16995,13892,17083,0,
16994,0,17084,2,
13248,16996,17085,1,
17000,0,17086,2,
16999,0,17087,2,
14512,16998,17088,0,
14816,16997,17089,0,
11422,17001,17090,0,
14828,17003,17091,0,
13376,17004,17092,1,
16979,16812,17093,0,
17006,0,17094,2,
12957,17008,17095,0,
17005,0,17096,2,
17010,0,17097,2,
17009,0,17098,2,
17011,0,17099,2,
17012,0,17100,2,
13912,17013,17101,0,
17002,0,17102,2,
11791,17012,17103,1,
11468,17016,17104,0,
16482,17015,17105,1,
16695,16999,17106,0,
12279,16938,17107,0,
17018,0,17108,2,
16259,17019,17109,1,
17021,0,17110,2,
17022,11482,17111,1,
11482,17022,17112,0,
17105,0,17113,2,
16858,17024,17114,0,
17025,0,17115,2,
17026,0,17116,2,
17027,15836,17117,0,
15739,17028,17118,0,
17029,16865,17119,0,
15598,17031,17120,1,
15619,17030,17121,1,
16409,17032,17122,1,
17034,0,17123,2,
16705,17036,17124,1,
16785,17037,17125,0,
17029,17039,17126,1,
17041,0,17127,2,
17043,0,17128,2,
16873,17037,17129,0,
17044,0,17130,2,
16962,17046,17131,0,
17049,0,17132,2,
17048,13848,17133,0,
16965,17050,17134,1,
17051,14743,17135,0,
16965,17050,17136,0,
16968,17053,17137,0,
17054,16970,17138,0,
17055,15508,17139,1,
17028,15739,17140,1,
17056,15509,17141,1,
17055,15508,17142,0,
17056,15509,17143,0,
17109,0,17144,2,
12347,17109,17145,0,
17057,0,17146,2,
15770,17059,17147,0,
17060,11308,17148,0,
17061,0,17149,2,
16653,17062,17150,1,
17063,11320,17151,0,
16653,17062,17152,0,
16937,17108,17153,0,
16606,17087,17154,1,
16235,17066,17155,0,
17067,16386,17156,0,
16586,17068,17157,0,
17070,16985,17158,0,
16728,17053,17159,0,
17069,15039,17160,1,
16980,17071,17161,0,
17069,0,17162,2,
17073,0,17163,2,
17072,0,17164,2,
17078,11384,17165,0,
17077,0,17166,2,
17075,16907,17167,0,
17076,15041,17168,0,
17079,16598,17169,0,
17080,0,17170,2,
17081,14488,17171,0,
17081,0,17172,2,
16035,17082,17173,0,
17083,0,17174,2,
17082,0,17175,2,
17085,0,17176,2,
17088,15066,17177,0,
17089,0,17178,2,
12562,17086,17179,0,
10995,17089,17180,1,
17090,11433,17181,0,
17092,0,17182,2,
17040,16786,17183,0,
17091,15075,17184,0,
17095,13199,17185,0,
17065,0,17186,2,
17093,0,17187,2,
17097,16610,17188,0,
12160,17099,17189,1,
11791,17100,17190,0,
17101,0,17191,2,
12274,17099,17192,0,
17104,11470,17193,0,
17103,0,17194,2,
17105,12166,17195,0,
17106,0,17196,2,
17023,0,17197,2,
16376,17156,17198,1,
17114,0,17199,2,
17112,0,17200,2,
13376,17177,17201,1,
17117,0,17202,2,
17118,0,17203,2,
17119,17033,17204,0,
17120,15471,17205,1,
17122,0,17206,2,
17121,15470,17207,0,
17120,15471,17208,0,
16000,17123,17209,1,
15844,17122,17210,0,
17124,16071,17211,1,
17124,16071,17212,0,
17121,15470,17213,1,
16713,17125,17214,1,
17040,17115,17215,0,
17126,0,17216,2,
16072,17123,17217,0,
17042,17127,17218,0,
16956,17128,17219,0,
17129,0,17220,2,
17131,0,17221,2,
12918,17133,17222,1,
13248,17135,17223,1,
17136,0,17224,2,
17137,0,17225,2,
17139,0,17226,2,
17140,15510,17227,1,
17140,15510,17228,0,
17143,0,17229,2,
17142,0,17230,2,
4413,17193,17231,1,
15081,17184,17232,1,
16974,17146,17233,0,
17147,0,17234,2,
4193,17148,17235,1,
4176,17151,17236,1,
17152,0,17237,2,
17155,0,17238,2,
16096,17155,17239,1,
17157,0,17240,2,
16667,17157,17241,1,
17159,0,17242,2,
17158,0,17243,2,
17160,0,17244,2,
17161,0,17245,2,
17162,15039,17246,0,
16826,17164,17247,0,
16824,17163,17248,0,
17164,16825,17249,0,
16992,17166,17250,0,
4158,17165,17251,1,
17168,0,17252,2,
17167,0,17253,2,
17169,0,17254,2,
17171,0,17255,2,
17172,14796,17256,0,
17173,0,17257,2,
15963,17175,17258,1,
10995,17178,17259,0,
11773,17179,17260,1,
4169,17181,17261,1,
17180,0,17262,2,
17180,16691,17263,1,
17179,0,17264,2,
17183,0,17265,2,
17184,0,17266,2,
12622,17185,17267,1,
16771,17188,17268,1,
17189,0,17269,2,
17190,0,17270,2,
17192,0,17271,2,
17195,0,17272,2,
17153,0,17273,2,
17107,17144,17274,0,
11813,17113,17275,0,
17145,0,17276,2,
17201,0,17277,2,
17199,17115,17278,0,
11878,17200,17279,0,
16137,17202,17280,0,
15835,17202,17281,0,
17203,15713,17282,0,
16064,17202,17283,0,
15993,17202,17284,0,
15919,17202,17285,0,
17204,0,17286,2,
15747,17206,17287,1,
17208,0,17288,2,
17209,0,17289,2,
17210,0,17290,2,
17212,0,17291,2,
17211,0,17292,2,
17276,17038,17293,0,
17214,0,17294,2,
13841,17216,17295,0,
17217,0,17296,2,
13652,17216,17297,1,
17210,17211,17298,0,
13843,17214,17299,0,
17043,17218,17300,1,
17219,17220,17301,0,
15974,17198,17302,1,
17221,16153,17303,1,
17222,0,17304,2,
17223,0,17305,2,
17274,0,17306,2,
17232,0,17307,2,
17138,17225,17308,0,
17226,15357,17309,0,
17228,0,17310,2,
17229,17230,17311,0,
17058,17233,17312,1,
17233,0,17313,2,
15862,17234,17314,0,
17235,0,17315,2,
17236,0,17316,2,
17231,12497,17317,1,
17239,15032,17318,1,
16169,17238,17319,0,
17239,15032,17320,0,
17198,0,17321,2,
16667,17240,17322,0,
17241,0,17323,2,
17244,17243,17324,0,
17242,16821,17325,0,
17246,0,17326,2,
17248,17249,17327,0,
17247,0,17328,2,
17251,0,17329,2,
17250,0,17330,2,
17254,16666,17331,0,
17221,16153,17332,0,
17256,0,17333,2,
17174,17257,17334,0,
17207,0,17335,2,
17259,0,17336,2,
17260,0,17337,2,
17215,16786,17338,0,
17201,16853,17339,0,
17261,0,17340,2,
17263,17092,17341,0,
17262,16766,17342,0,
11773,17264,17343,0,
17263,17182,17344,1,
15081,17266,17345,0,
17114,17265,17346,0,
17267,0,17347,2,
17268,0,17348,2,
12018,17270,17349,0,
17268,12273,17350,0,
17231,0,17351,2,
17275,0,17352,2,
11812,17349,17353,1,
17278,0,17354,2,
17280,0,17355,2,
15601,17281,17356,1,
15588,17282,17357,1,
17284,0,17358,2,
17283,0,17359,2,
17035,17286,17360,0,
17285,0,17361,2,
16786,17289,17362,0,
17292,17291,17363,0,
17290,17291,17364,0,
17293,17273,17365,0,
17287,17211,17366,0,
13653,17294,17367,1,
17297,0,17368,2,
17298,0,17369,2,
17299,0,17370,2,
17300,14979,17371,1,
17301,0,17372,2,
17300,14979,17373,0,
17295,0,17374,2,
17303,0,17375,2,
17351,12497,17376,0,
17352,17110,17377,0,
17308,0,17378,2,
17309,0,17379,2,
17312,0,17380,2,
17058,17313,17381,0,
16016,17314,17382,1,
17314,0,17383,2,
17064,17316,17384,1,
16843,17337,17385,1,
17317,0,17386,2,
17319,0,17387,2,
17318,16305,17388,0,
17320,0,17389,2,
16106,17321,17390,0,
17322,0,17391,2,
13722,17323,17392,1,
17141,17308,17393,1,
13887,17323,17394,0,
16991,17325,17395,1,
17324,17245,17396,0,
16886,17325,17397,1,
17312,16427,17398,1,
17252,17328,17399,0,
17327,0,17400,2,
17330,16985,17401,0,
17331,16814,17402,0,
17332,0,17403,2,
17318,16305,17404,1,
17334,0,17405,2,
17064,17316,17406,0,
11448,17336,17407,0,
17338,0,17408,2,
17339,0,17409,2,
17341,0,17410,2,
17342,0,17411,2,
17344,0,17412,2,
16928,17337,17413,0,
17343,0,17414,2,
17345,0,17415,2,
17025,17346,17416,1,
16422,17303,17417,0,
12162,17348,17418,0,
17277,16853,17419,1,
17349,0,17420,2,
17350,0,17421,2,
17279,11142,17422,0,
17272,17421,17423,0,
11812,17420,17424,0,
17116,17354,17425,0,
17377,17306,17426,0,
16552,17355,17427,0,
17356,15467,17428,1,
17357,15469,17429,0,
17357,15469,17430,1,
17356,0,17431,2,
15989,17358,17432,0,
16278,17359,17433,0,
17360,0,17434,2,
17361,15749,17435,0,
17287,17360,17436,1,
17362,17215,17437,0,
17365,0,17438,2,
17363,0,17439,2,
17130,17372,17440,0,
17373,0,17441,2,
16422,17375,17442,1,
17141,17378,17443,0,
17379,17227,17444,0,
17380,16496,17445,0,
17381,0,17446,2,
16089,17383,17447,0,
17419,0,17448,2,
16243,17387,17449,0,
17388,0,17450,2,
17390,0,17451,2,
16671,17391,17452,0,
17393,15040,17453,1,
17392,0,17454,2,
17395,15042,17455,0,
17393,0,17456,2,
17396,0,17457,2,
17394,0,17458,2,
17397,15042,17459,1,
17399,17400,17460,0,
16994,17398,17461,1,
17401,17160,17462,0,
17402,0,17463,2,
16186,17403,17464,0,
17404,17334,17465,1,
17084,17398,17466,0,
17404,17405,17467,0,
17385,0,17468,2,
17406,0,17469,2,
17096,17409,17470,0,
17407,0,17471,2,
17411,17410,17472,0,
17385,17065,17473,1,
12159,17414,17474,0,
17413,0,17475,2,
15243,17415,17476,0,
17397,0,17477,2,
17416,0,17478,2,
17353,0,17479,2,
12275,17416,17480,0,
17417,0,17481,2,
17418,0,17482,2,
17376,0,17483,2,
17427,0,17484,2,
17428,0,17485,2,
17430,17205,17486,0,
17431,15467,17487,0,
17429,17205,17488,0,
15607,17433,17489,1,
15600,17432,17490,1,
17287,17434,17491,0,
15592,17435,17492,1,
17436,0,17493,2,
17425,0,17494,2,
17437,0,17495,2,
15612,17427,17496,1,
17438,17426,17497,0,
17366,17434,17498,0,
17367,17439,17499,0,
17440,0,17500,2,
17442,17305,17501,1,
17344,17470,17502,1,
17443,0,17503,2,
17444,0,17504,2,
17445,0,17505,2,
17447,0,17506,2,
17449,0,17507,2,
16374,17449,17508,1,
17389,17450,17509,0,
16674,17452,17510,1,
17453,0,17511,2,
17452,0,17512,2,
17456,15040,17513,0,
17392,17458,17514,0,
17326,17457,17515,0,
17451,17458,17516,0,
17459,0,17517,2,
17461,0,17518,2,
17460,0,17519,2,
17462,0,17520,2,
17463,17330,17521,0,
17444,17430,17522,0,
17228,17430,17523,0,
16324,17464,17524,1,
17429,0,17525,2,
17464,0,17526,2,
17466,0,17527,2,
17465,0,17528,2,
17467,0,17529,2,
17425,17408,17530,0,
17470,0,17531,2,
17471,17098,17532,1,
17187,17469,17533,0,
17468,17186,17534,0,
17424,0,17535,2,
17471,17098,17536,0,
17472,0,17537,2,
17442,0,17538,2,
17474,0,17539,2,
17189,17474,17540,1,
17476,0,17541,2,
12163,17478,17542,0,
17477,15042,17543,0,
17480,0,17544,2,
12621,17483,17545,0,
17103,17476,17546,1,
17545,0,17547,2,
17111,17545,17548,1,
15841,17484,17549,0,
17207,17485,17550,0,
17487,0,17551,2,
17488,0,17552,2,
17490,15479,17553,0,
17489,15481,17554,1,
17491,0,17555,2,
17492,15483,17556,1,
17489,15481,17557,0,
17213,17485,17558,0,
14705,17493,17559,1,
15741,17484,17560,0,
17492,15483,17561,0,
17494,17289,17562,0,
14971,17493,17563,0,
17495,17296,17564,0,
17498,0,17565,2,
17490,15479,17566,1,
17496,15487,17567,1,
17497,0,17568,2,
17496,15487,17569,0,
17500,17302,17570,1,
17501,0,17571,2,
17503,17310,17572,0,
17310,17504,17573,0,
17446,17505,17574,0,
17508,17509,17575,1,
17509,0,17576,2,
17508,0,17577,2,
16374,17507,17578,0,
17500,17302,17579,0,
17229,17503,17580,0,
17510,0,17581,2,
17455,17511,17582,0,
16674,17512,17583,0,
17513,0,17584,2,
17515,0,17585,2,
17514,0,17586,2,
17517,17511,17587,0,
17519,17255,17588,0,
17520,17457,17589,0,
17459,17515,17590,1,
17311,17503,17591,0,
17521,14499,17592,0,
17521,0,17593,2,
17523,0,17594,2,
17524,0,17595,2,
16324,17526,17596,0,
17209,17530,17597,1,
17532,17472,17598,1,
17534,0,17599,2,
17533,0,17600,2,
17412,17531,17601,0,
17353,17535,17602,0,
17536,0,17603,2,
17269,17539,17604,0,
17532,17537,17605,0,
17538,17305,17606,0,
17543,0,17607,2,
17194,17541,17608,0,
17542,0,17609,2,
17547,17111,17610,0,
17609,17482,17611,0,
17549,0,17612,2,
17550,0,17613,2,
17288,17552,17614,0,
17553,17554,17615,0,
17559,0,17616,2,
17290,17555,17617,0,
17364,17555,17618,0,
17557,0,17619,2,
17558,17556,17620,0,
17562,0,17621,2,
17560,0,17622,2,
17561,0,17623,2,
17563,0,17624,2,
17565,17291,17625,0,
17566,17554,17626,0,
17423,17568,17627,0,
17569,0,17628,2,
17570,15636,17629,1,
17572,17311,17630,0,
17573,0,17631,2,
17574,0,17632,2,
17382,17574,17633,1,
17548,0,17634,2,
17608,0,17635,2,
17575,16515,17636,0,
17577,17576,17637,0,
17578,0,17638,2,
17579,0,17639,2,
17570,15636,17640,0,
17580,0,17641,2,
14791,17581,17642,1,
17582,0,17643,2,
17583,0,17644,2,
15047,17581,17645,0,
17588,0,17646,2,
17589,14495,17647,0,
17590,14799,17648,0,
17592,0,17649,2,
17591,0,17650,2,
17590,0,17651,2,
17589,0,17652,2,
17593,14812,17653,0,
17553,0,17654,2,
16759,17595,17655,1,
17594,17525,17656,0,
17596,0,17657,2,
16759,17595,17658,0,
17575,16515,17659,1,
17587,17585,17660,0,
17597,0,17661,2,
17601,0,17662,2,
17598,0,17663,2,
17475,17599,17664,0,
17600,17473,17665,1,
17473,17600,17666,0,
17602,0,17667,2,
17191,17603,17668,0,
17597,12463,17669,0,
17517,17585,17670,0,
17604,0,17671,2,
17606,0,17672,2,
17605,0,17673,2,
17655,17176,17674,1,
17610,0,17675,2,
16459,17657,17676,0,
15997,17612,17677,0,
17551,17613,17678,0,
17615,0,17679,2,
17295,17616,17680,0,
17618,0,17681,2,
17211,17617,17682,1,
17564,17621,17683,0,
17622,15757,17684,0,
17616,17368,17685,0,
17625,17369,17686,0,
17627,0,17687,2,
17626,17567,17688,0,
17668,0,17689,2,
17630,0,17690,2,
17661,12407,17691,0,
17382,17632,17692,0,
17633,0,17693,2,
16733,17633,17694,1,
17636,0,17695,2,
17637,0,17696,2,
16385,17638,17697,0,
17451,17639,17698,0,
17371,17629,17699,0,
17373,17629,17700,0,
17640,0,17701,2,
17641,17226,17702,1,
17516,17639,17703,0,
17642,0,17704,2,
17643,17584,17705,0,
17641,17139,17706,0,
16677,17644,17707,0,
17645,0,17708,2,
17646,17333,17709,0,
17647,0,17710,2,
17648,0,17711,2,
15055,17651,17712,0,
17522,17650,17713,0,
17652,14810,17714,0,
17653,0,17715,2,
17655,17176,17716,0,
17658,0,17717,2,
17659,0,17718,2,
17094,17659,17719,0,
17660,0,17720,2,
17664,0,17721,2,
17666,0,17722,2,
17670,0,17723,2,
17669,0,17724,2,
17540,17664,17725,1,
17232,17668,17726,1,
17481,17672,17727,0,
17271,17671,17728,0,
17727,0,17729,2,
17235,17694,17730,1,
17677,0,17731,2,
17678,0,17732,2,
17619,17679,17733,0,
17680,0,17734,2,
17682,0,17735,2,
17499,17681,17736,0,
17683,0,17737,2,
15611,17684,17738,1,
17611,17687,17739,0,
17367,17686,17740,1,
17297,17683,17741,1,
17544,17724,17742,0,
17690,17631,17743,0,
17725,0,17744,2,
17692,0,17745,2,
16809,17693,17746,0,
17315,17694,17747,0,
17676,0,17748,2,
17728,0,17749,2,
17696,17695,17750,0,
16740,17697,17751,1,
17697,0,17752,2,
17700,0,17753,2,
17698,0,17754,2,
17702,15043,17755,1,
17702,0,17756,2,
17703,0,17757,2,
17586,17704,17758,0,
16678,17707,17759,1,
17707,0,17760,2,
17705,0,17761,2,
17706,0,17762,2,
17709,0,17763,2,
17710,17711,17764,0,
17713,0,17765,2,
17714,0,17766,2,
17712,0,17767,2,
17716,0,17768,2,
17154,17676,17769,1,
17006,17718,17770,1,
17719,0,17771,2,
17705,17720,17772,0,
17691,0,17773,2,
17540,17721,17774,0,
17674,17727,17775,1,
17307,17689,17776,0,
17607,17723,17777,0,
17743,17486,17778,0,
15748,17731,17779,0,
17732,17556,17780,0,
17733,0,17781,2,
17736,0,17782,2,
15489,17735,17783,1,
17734,17624,17784,0,
17685,17737,17785,0,
17738,15492,17786,1,
17738,15492,17787,0,
15634,17735,17788,0,
17731,15748,17789,1,
17740,0,17790,2,
17739,0,17791,2,
17368,17737,17792,0,
17741,0,17793,2,
17775,0,17794,2,
17749,17317,17795,1,
17506,17745,17796,0,
17747,0,17797,2,
17746,0,17798,2,
17750,0,17799,2,
17751,0,17800,2,
16740,17752,17801,0,
17753,17701,17802,0,
17754,17454,17803,0,
17754,17454,17804,1,
17751,17750,17805,1,
17755,0,17806,2,
17758,17757,17807,0,
17756,15043,17808,0,
15671,17759,17809,0,
16754,17760,17810,0,
17759,0,17811,2,
17762,17230,17812,0,
17763,17649,17813,0,
17764,0,17814,2,
17777,17453,17815,1,
17430,17743,17816,1,
17772,17755,17817,1,
17730,0,17818,2,
17715,17766,17819,0,
17656,17765,17820,0,
17717,17768,17821,0,
17769,0,17822,2,
17772,0,17823,2,
17748,17154,17824,0,
17386,17749,17825,0,
17674,17729,17826,0,
17774,0,17827,2,
17776,0,17828,2,
17741,12449,17829,0,
17778,0,17830,2,
17779,0,17831,2,
17780,0,17832,2,
17781,17567,17833,0,
17783,0,17834,2,
17784,0,17835,2,
17370,17782,17836,0,
17787,0,17837,2,
17786,0,17838,2,
17785,0,17839,2,
17788,0,17840,2,
17789,15494,17841,1,
15930,17790,17842,1,
17792,0,17843,2,
16006,17790,17844,0,
17789,15494,17845,0,
17829,0,17846,2,
17793,12391,17847,0,
17826,0,17848,2,
17725,17827,17849,0,
17795,0,17850,2,
17796,0,17851,2,
17797,17798,17852,0,
17800,17799,17853,0,
17801,0,17854,2,
17803,0,17855,2,
17804,0,17856,2,
17801,17074,17857,0,
17805,16829,17858,1,
17806,17585,17859,0,
16033,17804,17860,0,
17805,16829,17861,0,
17807,0,17862,2,
17761,17806,17863,0,
17808,0,17864,2,
15536,17811,17865,1,
17227,17812,17866,1,
17809,0,17867,2,
17810,0,17868,2,
17813,0,17869,2,
17815,15387,17870,0,
17767,17814,17871,0,
17816,15539,17872,0,
17815,0,17873,2,
17816,15539,17874,1,
17817,0,17875,2,
17817,15386,17876,0,
17205,17820,17877,1,
17769,17821,17878,1,
17821,0,17879,2,
17742,17791,17880,0,
17823,17806,17881,0,
17825,0,17882,2,
17827,17795,17883,0,
17824,0,17884,2,
17742,17846,17885,0,
15752,17831,17886,0,
17614,17830,17887,0,
17623,17832,17888,0,
17833,0,17889,2,
17371,17836,17890,1,
17835,17834,17891,0,
17834,17737,17892,0,
17838,17837,17893,0,
17784,17839,17894,0,
17836,0,17895,2,
17842,0,17896,2,
17843,17374,17897,0,
17845,0,17898,2,
17847,0,17899,2,
17844,0,17900,2,
13764,17874,17901,0,
17849,0,17902,2,
17881,0,17903,2,
17851,16503,17904,1,
17851,16503,17905,0,
17852,0,17906,2,
17196,17884,17907,0,
17853,0,17908,2,
17853,17074,17909,0,
15962,17856,17910,1,
17857,0,17911,2,
17855,17458,17912,0,
17858,17329,17913,0,
17861,0,17914,2,
17860,0,17915,2,
17859,17587,17916,0,
17708,17862,17917,0,
17863,0,17918,2,
17866,15051,17919,1,
17858,17329,17920,1,
17868,17867,17921,0,
17866,0,17922,2,
17767,17869,17923,0,
17874,0,17924,2,
17871,0,17925,2,
17872,0,17926,2,
17870,0,17927,2,
17873,15540,17928,0,
17875,15541,17929,0,
17877,15545,17930,1,
17876,0,17931,2,
17877,0,17932,2,
17822,17879,17933,0,
17691,17846,17934,0,
17880,0,17935,2,
17887,0,17936,2,
15630,17886,17937,1,
17886,0,17938,2,
17628,17889,17939,0,
17892,17685,17940,0,
17891,0,17941,2,
17890,0,17942,2,
17791,17885,17943,0,
17371,17895,17944,0,
17783,17894,17945,1,
17893,0,17946,2,
17559,17897,17947,1,
17419,17907,17948,1,
13764,17924,17949,0,
17904,0,17950,2,
17905,0,17951,2,
16895,17904,17952,0,
17907,0,17953,2,
17908,17854,17954,0,
17699,17895,17955,0,
17909,0,17956,2,
17642,17912,17957,1,
17913,0,17958,2,
17916,0,17959,2,
17865,17917,17960,1,
17919,0,17961,2,
17917,0,17962,2,
17258,17921,17963,1,
17921,0,17964,2,
17922,15051,17965,0,
17903,17864,17966,0,
17819,17923,17967,0,
17213,17887,17968,1,
17929,0,17969,2,
17928,0,17970,2,
17925,17927,17971,0,
17924,17926,17972,0,
17930,0,17973,2,
17932,15545,17974,0,
17933,0,17975,2,
17934,0,17976,2,
17935,17773,17977,0,
17850,17902,17978,0,
17620,17936,17979,0,
17937,0,17980,2,
15630,17938,17981,0,
17939,17837,17982,0,
17940,0,17983,2,
17840,17941,17984,0,
16216,17942,17985,1,
17945,12234,17986,1,
17943,0,17987,2,
17944,0,17988,2,
17841,17946,17989,0,
16286,17942,17990,0,
17947,12236,17991,0,
17937,15926,17992,1,
17947,12236,17993,1,
17945,12234,17994,0,
16810,17950,17995,1,
16506,17951,17996,0,
17952,0,17997,2,
17074,17954,17998,1,
17955,0,17999,2,
17253,17956,18000,0,
17957,0,18001,2,
17914,17958,18002,0,
17959,17864,18003,0,
16323,17957,18004,0,
17960,0,18005,2,
17963,0,18006,2,
17865,17962,18007,0,
17258,17964,18008,0,
17965,0,18009,2,
17919,17966,18010,1,
17967,0,18011,2,
17213,17936,18012,0,
17969,17970,18013,0,
17968,15546,18014,1,
17972,0,18015,2,
17968,0,18016,2,
17558,17936,18017,0,
17976,17899,18018,0,
17974,0,18019,2,
17953,17448,18020,0,
17977,0,18021,2,
17980,15926,18022,0,
17979,0,18023,2,
17981,0,18024,2,
17984,17983,18025,0,
17985,0,18026,2,
17986,0,18027,2,
17988,17441,18028,0,
17990,0,18029,2,
18021,17846,18030,0,
17992,0,18031,2,
17991,0,18032,2,
17994,0,18033,2,
18020,0,18034,2,
17995,17149,18035,0,
17150,17996,18036,1,
17995,17149,18037,1,
17996,0,18038,2,
17998,0,18039,2,
17802,17999,18040,0,
18000,17911,18041,0,
16254,18001,18042,1,
18002,0,18043,2,
18003,17918,18044,0,
18004,0,18045,2,
16533,18005,18046,0,
16456,18005,18047,1,
18007,0,18048,2,
17528,18006,18049,0,
18008,17528,18050,0,
15391,18010,18051,0,
18010,0,18052,2,
18009,17926,18053,0,
18012,0,18054,2,
18008,0,18055,2,
17971,18011,18056,0,
18015,17973,18057,0,
18014,0,18058,2,
18016,15546,18059,0,
18017,0,18060,2,
18018,17993,18061,0,
18022,0,18062,2,
17888,18023,18063,0,
18061,17987,18064,0,
18025,0,18065,2,
17844,18026,18066,0,
17896,18026,18067,0,
17842,18025,18068,1,
17629,18028,18069,1,
18027,12108,18070,0,
18030,0,18071,2,
18040,17910,18072,1,
18033,18032,18073,0,
18035,0,18074,2,
18036,0,18075,2,
18037,17906,18076,0,
17150,18038,18077,0,
16828,18039,18078,1,
18040,0,18079,2,
16910,18039,18080,0,
18041,0,18081,2,
18044,0,18082,2,
18046,0,18083,2,
18007,18049,18084,0,
18046,18049,18085,0,
18050,0,18086,2,
18051,0,18087,2,
15543,18052,18088,0,
18054,17335,18089,0,
18056,0,18090,2,
17974,18058,18091,0,
18037,17852,18092,1,
18059,0,18093,2,
17973,18058,18094,0,
18047,0,18095,2,
17678,18060,18096,0,
17566,18063,18097,1,
17556,18096,18098,1,
18024,18062,18099,0,
18063,0,18100,2,
18067,18065,18101,0,
18066,0,18102,2,
18064,0,18103,2,
18070,0,18104,2,
18069,0,18105,2,
18068,12237,18106,1,
18068,12237,18107,0,
17896,18065,18108,0,
18071,17899,18109,0,
18072,0,18110,2,
17997,18074,18111,0,
18076,0,18112,2,
18077,0,18113,2,
18078,0,18114,2,
17910,18079,18115,0,
18080,0,18116,2,
18078,17170,18117,1,
18081,17518,18118,1,
17518,18081,18119,0,
18082,17961,18120,0,
18048,18083,18121,0,
18085,0,18122,2,
18084,0,18123,2,
18088,0,18124,2,
17931,18087,18125,0,
17428,18089,18126,1,
18091,0,18127,2,
18094,18015,18128,0,
18092,0,18129,2,
18117,18002,18130,1,
18099,0,18131,2,
17688,18100,18132,0,
18101,0,18133,2,
18029,18102,18134,0,
16074,18099,18135,1,
16417,18105,18136,1,
18106,18104,18137,0,
18108,0,18138,2,
18103,18032,18139,0,
18107,0,18140,2,
17993,18109,18141,1,
16488,18105,18142,0,
16719,18110,18143,1,
18073,18103,18144,0,
18097,0,18145,2,
18111,0,18146,2,
17237,18113,18147,0,
18098,0,18148,2,
18114,17170,18149,0,
18115,0,18150,2,
18117,0,18151,2,
18119,0,18152,2,
17566,18100,18153,0,
18120,0,18154,2,
18121,0,18155,2,
14535,18097,18156,1,
18123,17529,18157,0,
16837,18110,18158,0,
18122,18086,18159,0,
17963,18121,18160,1,
18125,0,18161,2,
18013,18124,18162,0,
18126,15082,18163,1,
18127,18093,18164,0,
17626,18100,18165,0,
18126,15082,18166,0,
14844,18098,18167,1,
18148,14844,18168,0,
17527,18152,18169,0,
16145,18131,18170,0,
18132,0,18171,2,
18134,18133,18172,0,
18136,0,18173,2,
18135,0,18174,2,
18137,0,18175,2,
18139,0,18176,2,
18138,17900,18177,0,
18142,0,18178,2,
16222,18135,18179,0,
18144,0,18180,2,
18146,18075,18181,1,
18146,18075,18182,0,
17384,18147,18183,1,
18149,0,18184,2,
17915,18150,18185,0,
18151,18043,18186,0,
17920,18130,18187,0,
18153,0,18188,2,
18009,18154,18189,0,
18143,0,18190,2,
18006,18155,18191,0,
18158,0,18192,2,
18053,18154,18193,0,
18159,18157,18194,0,
18147,0,18195,2,
18160,16841,18196,1,
18162,18090,18197,0,
18160,16841,18198,0,
18124,18161,18199,0,
18165,0,18200,2,
18164,0,18201,2,
18166,0,18202,2,
18130,0,18203,2,
18145,14535,18204,0,
18156,0,18205,2,
18167,0,18206,2,
18073,18140,18207,0,
18204,0,18208,2,
18168,0,18209,2,
18189,17874,18210,1,
17982,18171,18211,0,
18170,0,18212,2,
17939,18171,18213,0,
18207,18103,18214,0,
18172,0,18215,2,
16151,18174,18216,1,
18175,18140,18217,0,
17985,18177,18218,1,
18136,18172,18219,1,
18176,18027,18220,1,
17986,18176,18221,0,
18179,0,18222,2,
18137,18180,18223,0,
18169,17730,18224,0,
18196,17340,18225,1,
18076,18181,18226,0,
18182,0,18227,2,
18183,0,18228,2,
18116,18184,18229,0,
18185,0,18230,2,
18042,18185,18231,1,
18188,17654,18232,0,
18169,0,18233,2,
18189,0,18234,2,
18142,18190,18235,0,
18191,0,18236,2,
17384,18195,18237,0,
18193,0,18238,2,
18194,0,18239,2,
18196,17340,18240,0,
17949,17901,18241,1,
18241,18189,18242,0,
17949,18242,18243,1,
18197,0,18244,2,
18199,0,18245,2,
18198,0,18246,2,
18186,0,18247,2,
17733,18200,18248,0,
18163,18201,18249,0,
17770,18194,18250,1,
18209,18208,18251,0,
18233,17818,18252,1,
18211,0,18253,2,
16079,18212,18254,0,
18213,0,18255,2,
18214,0,18256,2,
18173,18215,18257,0,
18216,17045,18258,1,
18217,0,18259,2,
18220,0,18260,2,
18219,12113,18261,1,
18218,12112,18262,0,
18221,0,18263,2,
18219,12113,18264,0,
18216,17045,18265,0,
18223,0,18266,2,
18218,12112,18267,1,
17567,18248,18268,1,
18224,0,18269,2,
18250,0,18270,2,
18226,0,18271,2,
18118,18229,18272,1,
18229,0,18273,2,
18231,0,18274,2,
18042,18230,18275,0,
17554,18232,18276,1,
18215,18190,18277,0,
18208,18156,18278,0,
17874,18234,18279,0,
17818,18233,18280,0,
18235,0,18281,2,
18182,18228,18282,0,
18236,18055,18283,0,
17770,18239,18284,0,
18226,18228,18285,0,
18237,0,18286,2,
18057,18238,18287,0,
18240,0,18288,2,
18245,18244,18289,0,
18243,0,18290,2,
18163,18238,18291,0,
13768,18210,18292,0,
18128,18238,18293,0,
18249,0,18294,2,
18268,0,18295,2,
18255,17786,18296,0,
17989,18253,18297,0,
18254,0,18298,2,
18257,0,18299,2,
18267,18256,18300,0,
18262,0,18301,2,
18265,0,18302,2,
18263,18033,18303,0,
18264,0,18304,2,
18266,18140,18305,0,
18269,18129,18306,0,
18272,0,18307,2,
18276,15542,18308,1,
18271,18227,18309,0,
18275,0,18310,2,
16831,18274,18311,1,
18118,18273,18312,0,
16915,18274,18313,0,
18276,0,18314,2,
18279,0,18315,2,
18277,18173,18316,0,
18278,0,18317,2,
18280,0,18318,2,
18192,18281,18319,0,
18251,0,18320,2,
18282,0,18321,2,
17465,18283,18322,1,
18287,0,18323,2,
18268,15895,18324,1,
18285,0,18325,2,
18284,0,18326,2,
18246,18288,18327,0,
18255,17838,18328,1,
18291,18128,18329,0,
18289,18290,18330,0,
18292,0,18331,2,
18293,0,18332,2,
18261,0,18333,2,
18267,18259,18334,0,
18130,18307,18335,0,
18267,18305,18336,1,
16354,18298,18337,0,
18296,0,18338,2,
18297,0,18339,2,
18334,18256,18340,0,
18300,18259,18341,0,
18298,16354,18342,1,
18299,18178,18343,0,
18222,18302,18344,0,
18106,18303,18345,1,
18308,18208,18346,0,
18306,18181,18347,0,
18186,18307,18348,0,
18312,0,18349,2,
18045,18310,18350,0,
18311,0,18351,2,
18313,0,18352,2,
18308,0,18353,2,
18315,17926,18354,0,
18316,0,18355,2,
18314,15542,18356,0,
18311,11763,18357,1,
18321,18286,18358,0,
18322,16929,18359,1,
18324,0,18360,2,
17771,18326,18361,0,
18327,0,18362,2,
18330,0,18363,2,
18328,0,18364,2,
18328,16258,18365,1,
18329,0,18366,2,
18295,15895,18367,0,
18164,18332,18368,0,
18323,18019,18369,0,
18333,11939,18370,0,
18322,16929,18371,0,
18304,18301,18372,0,
18367,0,18373,2,
18347,18228,18374,0,
17920,18361,18375,1,
18317,18353,18376,0,
18338,17837,18377,0,
18337,0,18378,2,
17898,18339,18379,0,
18340,0,18380,2,
18143,18343,18381,1,
18342,0,18382,2,
18341,0,18383,2,
18345,0,18384,2,
16489,18342,18385,0,
18344,0,18386,2,
18336,0,18387,2,
17197,18359,18388,0,
18361,0,18389,2,
18348,0,18390,2,
11763,18351,18391,0,
18047,18350,18392,1,
18354,17930,18393,0,
18319,18355,18394,0,
18356,0,18395,2,
18357,0,18396,2,
18368,18163,18397,1,
18359,0,18398,2,
18350,0,18399,2,
18369,18014,18400,1,
18358,18325,18401,0,
18364,16258,18402,0,
18365,0,18403,2,
18366,18202,18404,0,
18363,18331,18405,0,
18371,0,18406,2,
18370,0,18407,2,
18251,18395,18408,0,
18404,18294,18409,0,
17841,18377,18410,1,
17992,18379,18411,1,
18379,0,18412,2,
16418,18378,18413,0,
18380,18301,18414,0,
18383,18301,18415,0,
16421,18382,18416,1,
18381,0,18417,2,
18385,0,18418,2,
18374,17665,18419,0,
18405,0,18420,2,
18372,18380,18421,0,
18307,18389,18422,0,
18390,18349,18423,0,
18391,0,18424,2,
18392,0,18425,2,
18376,0,18426,2,
17920,18389,18427,0,
18376,18320,18428,0,
18393,0,18429,2,
18394,0,18430,2,
18324,18395,18431,0,
18397,0,18432,2,
17023,18398,18433,1,
18095,18399,18434,0,
17102,18392,18435,0,
18400,0,18436,2,
18401,0,18437,2,
18400,14531,18438,0,
12167,18381,18439,0,
18388,0,18440,2,
18375,0,18441,2,
18402,0,18442,2,
18409,18167,18443,1,
18413,0,18444,2,
18411,16795,18445,0,
18410,16487,18446,1,
18031,18412,18447,0,
18410,0,18448,2,
18411,16795,18449,1,
18414,0,18450,2,
18416,17304,18451,1,
18261,18415,18452,1,
11940,18417,18453,1,
18416,17304,18454,0,
18421,0,18455,2,
18433,18327,18456,1,
18422,18187,18457,0,
17002,18425,18458,1,
18352,18424,18459,0,
18427,18130,18460,0,
18426,18395,18461,0,
18323,18429,18462,0,
18430,18396,18463,0,
18428,0,18464,2,
18408,18373,18465,0,
18396,18430,18466,0,
17665,18437,18467,0,
18433,18362,18468,0,
18434,0,18469,2,
18435,0,18470,2,
18432,15353,18471,0,
18436,14842,18472,0,
18409,0,18473,2,
18430,18396,18474,1,
18438,0,18475,2,
18406,18440,18476,0,
18439,0,18477,2,
18427,0,18478,2,
18432,0,18479,2,
18468,0,18480,2,
18469,18470,18481,0,
18250,18476,18482,0,
18443,15808,18483,0,
18473,18206,18484,0,
18445,0,18485,2,
18447,0,18486,2,
16639,18444,18487,0,
18446,0,18488,2,
18444,16639,18489,1,
18141,18449,18490,1,
18448,16487,18491,0,
18141,18449,18492,0,
18261,18450,18493,0,
18451,18344,18494,1,
18452,0,18495,2,
18454,0,18496,2,
18451,18386,18497,0,
18476,0,18498,2,
18457,0,18499,2,
18458,18459,18500,1,
18461,0,18501,2,
18460,0,18502,2,
18462,0,18503,2,
18463,0,18504,2,
18459,0,18505,2,
18431,18464,18506,0,
18472,0,18507,2,
18467,0,18508,2,
18462,14530,18509,0,
18471,0,18510,2,
18456,0,18511,2,
18443,0,18512,2,
18453,18407,18513,0,
18479,15560,18514,0,
18484,0,18515,2,
18482,0,18516,2,
17047,18490,18517,0,
18486,18485,18518,0,
18487,0,18519,2,
18489,0,18520,2,
18492,0,18521,2,
18491,0,18522,2,
16798,18489,18523,0,
17047,18490,18524,1,
18493,0,18525,2,
18494,18384,18526,1,
18418,18496,18527,0,
18494,0,18528,2,
18497,0,18529,2,
18270,18498,18530,0,
18509,0,18531,2,
18481,0,18532,2,
18512,15973,18533,0,
18455,18513,18534,0,
18423,18499,18535,0,
18500,0,18536,2,
18498,18270,18537,1,
18376,18484,18538,0,
18501,18360,18539,0,
18502,18247,18540,0,
18483,0,18541,2,
18458,18505,18542,0,
18503,14840,18543,0,
18475,18510,18544,0,
18508,17722,18545,0,
18225,18481,18546,1,
18209,18515,18547,0,
18539,0,18548,2,
18535,18318,18549,0,
18516,18441,18550,0,
18546,0,18551,2,
18514,18541,18552,0,
16720,18520,18553,1,
18258,18518,18554,1,
18517,0,18555,2,
16721,18519,18556,0,
18523,0,18557,2,
18518,0,18558,2,
18525,18304,18559,0,
18526,0,18560,2,
18527,0,18561,2,
18528,18384,18562,0,
18534,0,18563,2,
18535,0,18564,2,
17878,18536,18565,0,
18530,0,18566,2,
18524,0,18567,2,
18408,18515,18568,0,
18538,0,18569,2,
18465,18515,18570,0,
18466,18536,18571,0,
18225,18532,18572,0,
18544,18541,18573,0,
18542,0,18574,2,
18468,18537,18575,0,
18543,0,18576,2,
18474,18536,18577,0,
18251,18515,18578,0,
18420,18531,18579,0,
18533,0,18580,2,
18547,0,18581,2,
18507,18576,18582,0,
18579,0,18583,2,
18156,18547,18584,1,
18578,0,18585,2,
18577,18551,18586,0,
18554,18260,18587,1,
18521,18555,18588,0,
18553,17132,18589,0,
18556,0,18590,2,
18554,0,18591,2,
18258,18558,18592,0,
17134,18556,18593,1,
18453,18559,18594,1,
18553,17132,18595,1,
18562,0,18596,2,
18335,18550,18597,0,
18477,18563,18598,0,
18480,18566,18599,0,
18252,18564,18600,0,
18565,0,18601,2,
18568,0,18602,2,
18549,0,18603,2,
18506,18569,18604,0,
18571,0,18605,2,
18570,0,18606,2,
18548,18373,18607,0,
18575,0,18608,2,
18572,0,18609,2,
18552,0,18610,2,
18581,18205,18611,0,
18574,18605,18612,0,
18580,18610,18613,0,
18595,18527,18614,1,
18584,0,18615,2,
18589,0,18616,2,
18587,0,18617,2,
18588,0,18618,2,
17134,18590,18619,0,
18591,18260,18620,0,
18592,0,18621,2,
18593,0,18622,2,
18594,0,18623,2,
18588,18587,18624,0,
18598,18474,18625,1,
18595,18561,18626,0,
18529,18596,18627,0,
18607,0,18628,2,
18403,18606,18629,0,
18598,0,18630,2,
18599,18456,18631,0,
18600,0,18632,2,
18608,18566,18633,0,
18539,18602,18634,0,
18584,16190,18635,0,
18603,18419,18636,0,
18604,0,18637,2,
18376,18585,18638,0,
18582,18583,18639,0,
18611,0,18640,2,
18639,0,18641,2,
18617,18618,18642,0,
18557,18616,18643,0,
18619,0,18644,2,
18620,0,18645,2,
18624,0,18646,2,
18614,0,18647,2,
18625,17794,18648,1,
18626,0,18649,2,
18627,0,18650,2,
18614,18336,18651,1,
18629,18628,18652,0,
18625,0,18653,2,
18586,18630,18654,0,
18612,0,18655,2,
18638,0,18656,2,
18631,0,18657,2,
18577,18630,18658,0,
18632,18318,18659,0,
18474,18630,18660,0,
18634,0,18661,2,
18635,0,18662,2,
18636,0,18663,2,
18615,16198,18664,0,
18346,18640,18665,0,
18652,0,18666,2,
17224,18644,18667,0,
18643,0,18668,2,
18593,18643,18669,1,
18642,0,18670,2,
18621,18645,18671,0,
18647,18387,18672,0,
18648,0,18673,2,
18651,18650,18674,0,
18650,18651,18675,1,
18597,18657,18676,0,
18654,0,18677,2,
18664,0,18678,2,
18658,0,18679,2,
18660,0,18680,2,
18661,18373,18681,0,
18663,18545,18682,0,
18655,18551,18683,0,
18653,17794,18684,0,
18637,18661,18685,0,
18573,18641,18686,0,
18665,0,18687,2,
18685,16723,18688,0,
18442,18666,18689,0,
18622,18668,18690,0,
18669,18495,18691,0,
17501,18667,18692,1,
18667,0,18693,2,
18671,0,18694,2,
18671,18526,18695,0,
18672,0,18696,2,
18669,18495,18697,1,
18684,0,18698,2,
18686,0,18699,2,
18676,0,18700,2,
18612,18679,18701,0,
18680,18504,18702,0,
18681,18365,18703,0,
18676,18419,18704,0,
18683,0,18705,2,
18685,0,18706,2,
18656,18687,18707,0,
18699,18678,18708,0,
17848,18698,18709,0,
18689,0,18710,2,
18692,18623,18711,0,
17571,18693,18712,0,
18691,0,18713,2,
18690,0,18714,2,
18560,18694,18715,0,
18692,18623,18716,1,
18695,0,18717,2,
18649,18696,18718,0,
18705,18609,18719,0,
18700,18549,18720,0,
18688,0,18721,2,
18702,0,18722,2,
18446,18689,18723,1,
18551,18701,18724,1,
18500,18702,18725,1,
18703,0,18726,2,
18706,16852,18727,0,
18707,0,18728,2,
18724,17948,18729,1,
18709,0,18730,2,
18710,18488,18731,0,
18711,0,18732,2,
18712,0,18733,2,
18714,18713,18734,0,
18715,0,18735,2,
18697,18718,18736,1,
18727,0,18737,2,
18719,18677,18738,0,
18726,18666,18739,0,
18720,0,18740,2,
17878,18722,18741,0,
18718,0,18742,2,
18723,0,18743,2,
18646,18717,18744,0,
18724,0,18745,2,
18707,16394,18746,0,
18723,17267,18747,0,
18725,17878,18748,1,
18708,18613,18749,0,
16395,18728,18750,0,
18599,18738,18751,0,
18740,18347,18752,0,
18716,18734,18753,1,
18730,18748,18754,0,
18730,18748,18755,1,
18731,0,18756,2,
18734,0,18757,2,
18733,18732,18758,0,
18736,18674,18759,1,
18739,0,18760,2,
18749,0,18761,2,
18739,17020,18762,0,
18738,0,18763,2,
18601,18741,18764,1,
18736,0,18765,2,
18697,18742,18766,0,
17347,18743,18767,0,
18745,17948,18768,0,
18746,0,18769,2,
18729,0,18770,2,
18747,0,18771,2,
18750,0,18772,2,
18751,0,18773,2,
18754,0,18774,2,
17975,18764,18775,0,
18756,18522,18776,0,
18716,18757,18777,0,
18648,18758,18778,1,
18758,0,18779,2,
18759,0,18780,2,
18763,18456,18781,1,
18753,0,18782,2,
18662,18769,18783,0,
18762,0,18784,2,
18511,18763,18785,0,
18674,18765,18786,0,
18675,18765,18787,0,
18766,0,18788,2,
18767,0,18789,2,
18768,0,18790,2,
18751,18549,18791,0,
17052,18760,18792,0,
18737,18772,18793,0,
18729,18775,18794,1,
18791,0,18795,2,
18776,0,18796,2,
18673,18779,18797,0,
18777,18778,18798,0,
18777,0,18799,2,
18790,18034,18800,0,
17502,18781,18801,1,
18773,18676,18802,0,
18792,0,18803,2,
18252,18773,18804,0,
18785,0,18805,2,
18781,0,18806,2,
18537,18785,18807,0,
18744,18787,18808,0,
18786,0,18809,2,
18787,18715,18810,0,
18776,18567,18811,0,
18704,18773,18812,0,
18782,18778,18813,0,
18775,0,18814,2,
18721,18784,18815,0,
18783,18761,18816,0,
18770,18814,18817,0,
18793,18803,18818,0,
18816,0,18819,2,
18524,18796,18820,0,
18798,0,18821,2,
18797,0,18822,2,
18801,18800,18823,1,
18813,18755,18824,0,
18752,18795,18825,0,
18802,0,18826,2,
18804,18676,18827,0,
18805,18480,18828,0,
18807,0,18829,2,
17502,18806,18830,0,
18811,0,18831,2,
18809,18788,18832,0,
18810,0,18833,2,
18812,0,18834,2,
18801,0,18835,2,
18800,0,18836,2,
18815,0,18837,2,
18599,18805,18838,0,
18821,18822,18839,0,
18818,18819,18840,0,
18834,17827,18841,0,
18820,0,18842,2,
18682,18834,18843,0,
18803,18837,18844,0,
18817,18823,18845,0,
18825,0,18846,2,
18535,18826,18847,0,
18827,0,18848,2,
18838,0,18849,2,
18537,18828,18850,1,
18794,18823,18851,0,
18830,0,18852,2,
18633,18829,18853,0,
18817,0,18854,2,
18832,18833,18855,0,
18789,18831,18856,0,
18835,18836,18857,0,
18549,18826,18858,0,
18824,18794,18859,0,
18857,0,18860,2,
18845,0,18861,2,
18840,0,18862,2,
18858,0,18863,2,
18744,18856,18864,0,
18856,18808,18865,0,
18842,18670,18866,0,
18843,0,18867,2,
18851,0,18868,2,
18844,0,18869,2,
18309,18846,18870,0,
17725,18843,18871,1,
18252,18847,18872,1,
18659,18848,18873,0,
18130,18849,18874,0,
18850,0,18875,2,
17662,18852,18876,0,
18850,17663,18877,1,
18375,18853,18878,1,
18849,18550,18879,0,
18841,18682,18880,0,
18839,0,18881,2,
18771,18862,18882,0,
18881,18755,18883,0,
18866,0,18884,2,
18861,18860,18885,0,
18877,18876,18886,1,
18860,18868,18887,0,
11767,18871,18888,1,
18306,18863,18889,0,
11321,18870,18890,1,
18183,18870,18891,1,
18871,11767,18892,0,
18872,0,18893,2,
18092,18873,18894,1,
18874,18550,18895,0,
18875,17663,18896,0,
18872,12276,18897,1,
18878,0,18898,2,
18877,0,18899,2,
18876,0,18900,2,
18867,17744,18901,0,
18880,0,18902,2,
18374,18863,18903,0,
17726,18878,18904,0,
18879,0,18905,2,
18882,18869,18906,0,
18899,18900,18907,0,
18883,0,18908,2,
18884,18646,18909,0,
18887,18861,18910,0,
18889,0,18911,2,
18890,18228,18912,1,
18891,11321,18913,0,
18892,0,18914,2,
18893,12158,18915,0,
18885,0,18916,2,
18894,0,18917,2,
18851,18886,18918,0,
18895,0,18919,2,
18808,18884,18920,0,
11794,18894,18921,0,
18478,18905,18922,0,
17667,18897,18923,0,
18896,0,18924,2,
17978,18902,18925,0,
17726,18898,18926,1,
18901,0,18927,2,
18903,0,18928,2,
18904,0,18929,2,
18906,0,18930,2,
17673,18924,18931,0,
18909,0,18932,2,
18925,0,18933,2,
18910,0,18934,2,
18911,18112,18935,0,
18912,0,18936,2,
17828,18929,18937,0,
11794,18917,18938,1,
18913,0,18939,2,
12004,18914,18940,0,
18915,0,18941,2,
18908,18774,18942,0,
18886,18916,18943,0,
18907,0,18944,2,
18540,18919,18945,0,
18921,0,18946,2,
17883,18927,18947,0,
18920,0,18948,2,
18926,0,18949,2,
18401,18928,18950,0,
18203,18922,18951,1,
18865,18930,18952,0,
18937,0,18953,2,
18932,18735,18954,0,
18864,18930,18955,0,
18947,0,18956,2,
12171,18946,18957,0,
18181,18935,18958,1,
18951,17546,18959,1,
17882,18933,18960,0,
12271,18941,18961,0,
18926,18931,18962,1,
11764,18939,18963,0,
18940,0,18964,2,
18942,0,18965,2,
17546,18951,18966,0,
18943,0,18967,2,
18938,0,18968,2,
18272,18945,18969,1,
18886,18934,18970,0,
18931,0,18971,2,
17665,18950,18972,1,
18855,18948,18973,0,
18952,0,18974,2,
18972,0,18975,2,
18907,18962,18976,0,
17634,18960,18977,1,
18949,18971,18978,0,
18954,0,18979,2,
18955,0,18980,2,
18959,18937,18981,1,
18958,0,18982,2,
18960,0,18983,2,
18963,0,18984,2,
18953,18959,18985,0,
18933,18956,18986,0,
18794,18965,18987,0,
18961,0,18988,2,
18938,18961,18989,1,
18967,18944,18990,0,
18969,17479,18991,0,
18966,0,18992,2,
18969,0,18993,2,
18970,18962,18994,0,
18957,0,18995,2,
18969,17479,18996,1,
18973,18974,18997,0,
17635,18992,18998,0,
18993,17535,18999,0,
18986,12028,19000,1,
18979,18717,19001,0,
10890,18982,19002,1,
10890,18982,19003,0,
18983,17634,19004,0,
18976,0,19005,2,
18981,0,19006,2,
18978,0,19007,2,
11027,18975,19008,1,
18977,10634,19009,1,
18985,0,19010,2,
18987,0,19011,2,
18977,0,19012,2,
12028,18986,19013,0,
18968,18988,19014,0,
18923,18989,19015,0,
18991,0,19016,2,
11027,18975,19017,0,
18997,0,19018,2,
19000,18940,19019,1,
18998,0,19020,2,
19001,0,19021,2,
18753,18997,19022,1,
19002,18995,19023,0,
18963,19008,19024,1,
19002,18957,19025,1,
19003,0,19026,2,
19014,0,19027,2,
19004,0,19028,2,
19017,0,19029,2,
18984,19008,19030,0,
19000,18964,19031,0,
19007,19005,19032,0,
19016,17535,19033,0,
19009,0,19034,2,
19013,0,19035,2,
19012,10634,19036,0,
18999,0,19037,2,
18824,19018,19038,0,
19025,0,19039,2,
19015,19037,19040,0,
19036,0,19041,2,
19020,18996,19042,1,
18996,19020,19043,0,
18782,19018,19044,0,
18813,19018,19045,0,
18980,19021,19046,0,
19022,18780,19047,0,
19023,0,19048,2,
19033,18897,19049,1,
11322,19026,19050,0,
17675,19028,19051,0,
19030,0,19052,2,
19024,0,19053,2,
19031,0,19054,2,
12172,19035,19055,0,
19019,0,19056,2,
18859,19018,19057,0,
19032,0,19058,2,
11703,19029,19059,0,
19033,0,19060,2,
19038,0,19061,2,
19039,18989,19062,0,
19042,19006,19063,0,
18985,19042,19064,0,
19043,0,19065,2,
19045,0,19066,2,
19044,0,19067,2,
18675,19046,19068,1,
19049,0,19069,2,
19059,0,19070,2,
19050,0,19071,2,
19040,0,19072,2,
17422,19051,19073,0,
19019,19054,19074,0,
19009,19055,19075,1,
19058,19006,19076,0,
19057,0,19077,2,
19051,0,19078,2,
19055,0,19079,2,
11029,19041,19080,0,
19060,18897,19081,0,
18912,19050,19082,1,
18942,19061,19083,0,
19081,0,19084,2,
19039,19082,19085,0,
19064,0,19086,2,
19067,18799,19087,0,
18839,19066,19088,0,
19068,0,19089,2,
19070,18888,19090,1,
19034,19079,19091,0,
19080,0,19092,2,
19023,19082,19093,0,
18936,19071,19094,0,
19073,0,19095,2,
10896,19073,19096,1,
19070,18888,19097,0,
19073,10896,19098,0,
19074,0,19099,2,
19076,0,19100,2,
19077,18854,19101,0,
19027,19072,19102,0,
19069,18989,19103,0,
19078,11477,19104,1,
19083,18885,19105,0,
19102,0,19106,2,
19053,19090,19107,0,
19085,19056,19108,0,
19104,17279,19109,1,
18778,19087,19110,1,
18755,19088,19111,1,
19083,18794,19112,1,
19047,19089,19113,0,
19089,18780,19114,0,
19103,19085,19115,0,
19086,19065,19116,0,
19091,0,19117,2,
19093,0,19118,2,
19094,0,19119,2,
19095,11327,19120,0,
19030,19090,19121,0,
19097,0,19122,2,
19098,0,19123,2,
19083,0,19124,2,
19095,11327,19125,1,
19075,19099,19126,0,
19056,19090,19127,0,
19101,19011,19128,0,
19105,0,19129,2,
10754,19109,19130,1,
19107,19085,19131,0,
19109,10754,19132,0,
19111,0,19133,2,
19110,0,19134,2,
18823,19128,19135,1,
19112,0,19136,2,
19022,19114,19137,1,
19110,19113,19138,1,
19039,19106,19139,0,
19116,0,19140,2,
19085,19106,19141,0,
19119,19118,19142,0,
19120,0,19143,2,
19121,0,19144,2,
11480,19123,19145,0,
19107,0,19146,2,
18918,19124,19147,0,
18851,19124,19148,0,
19126,0,19149,2,
19127,19053,19150,0,
19132,0,19151,2,
18994,19129,19152,0,
19092,19130,19153,1,
19134,19133,19154,0,
19135,0,19155,2,
19138,0,19156,2,
19137,19133,19157,0,
19139,0,19158,2,
19069,19140,19159,0,
19141,0,19160,2,
19113,19134,19161,0,
19137,0,19162,2,
19144,19122,19163,0,
19125,19145,19164,1,
19145,0,19165,2,
19149,19117,19166,0,
19147,0,19167,2,
19092,19130,19168,0,
19148,0,19169,2,
11964,19143,19170,0,
19152,0,19171,2,
19154,19113,19172,0,
19169,18885,19173,0,
19157,19156,19174,0,
18990,19167,19175,0,
19159,0,19176,2,
19142,19160,19177,0,
19164,0,19178,2,
11025,19151,19179,0,
19155,19136,19180,0,
19111,19161,19181,1,
19156,19137,19182,0,
19138,19162,19183,1,
19170,0,19184,2,
19163,19054,19185,0,
19152,19006,19186,0,
19125,19165,19187,0,
19153,0,19188,2,
19166,0,19189,2,
19168,0,19190,2,
19158,19048,19191,0,
19163,0,19192,2,
19032,19171,19193,0,
19185,19117,19194,0,
19153,19189,19195,0,
19172,19136,19196,0,
18886,19173,19197,1,
19172,19112,19198,1,
12126,19184,19199,0,
19184,12126,19200,1,
18962,19175,19201,1,
19181,19182,19202,1,
19056,19192,19203,0,
19185,19146,19204,0,
19174,0,19205,2,
19183,0,19206,2,
19186,0,19207,2,
19187,0,19208,2,
19179,0,19209,2,
19096,19179,19210,1,
19193,0,19211,2,
19194,0,19212,2,
19178,19200,19213,0,
19135,19196,19214,1,
19196,19155,19215,0,
19198,0,19216,2,
19210,0,19217,2,
19201,0,19218,2,
19197,0,19219,2,
19193,19006,19220,1,
19202,0,19221,2,
19200,0,19222,2,
19203,0,19223,2,
19204,0,19224,2,
19096,19209,19225,0,
19199,0,19226,2,
19207,19010,19227,0,
19202,19206,19228,1,
19107,19195,19229,0,
19063,19211,19230,0,
19214,0,19231,2,
19197,19215,19232,1,
19174,19216,19233,0,
19227,19100,19234,0,
19219,19172,19235,0,
19180,19219,19236,0,
19172,19218,19237,0,
19220,0,19238,2,
19221,19183,19239,0,
19217,19178,19240,0,
19222,12238,19241,0,
19126,19224,19242,0,
19223,19054,19243,0,
19225,19178,19244,0,
19225,0,19245,2,
19195,19212,19246,0,
19222,19226,19247,0,
19230,0,19248,2,
19069,19230,19249,0,
19232,0,19250,2,
19233,19231,19251,0,
19235,19180,19252,0,
19236,19237,19253,0,
19042,19234,19254,1,
19237,19238,19255,0,
19239,19216,19256,0,
19233,0,19257,2,
19239,0,19258,2,
19241,0,19259,2,
19244,0,19260,2,
19246,0,19261,2,
19247,0,19262,2,
19116,19248,19263,0,
19249,0,19264,2,
19251,19250,19265,0,
19208,19260,19266,0,
19253,19238,19267,0,
19254,0,19268,2,
19201,19252,19269,1,
19255,19236,19270,0,
19256,19231,19271,0,
19253,0,19272,2,
19256,0,19273,2,
19251,0,19274,2,
19258,19205,19275,0,
12176,19259,19276,0,
19261,19190,19277,0,
19263,0,19278,2,
19276,0,19279,2,
19266,12352,19280,0,
19264,19084,19281,0,
19049,19263,19282,1,
19270,19268,19283,0,
19268,19267,19284,1,
19269,0,19285,2,
19271,19250,19286,0,
19272,19220,19287,1,
19271,0,19288,2,
19265,0,19289,2,
19257,19273,19290,0,
19198,19275,19291,1,
19103,19278,19292,0,
19283,19282,19293,0,
19115,19278,19294,0,
19265,19284,19295,0,
19285,19238,19296,0,
19282,19283,19297,1,
19265,19285,19298,0,
19286,19285,19299,0,
19286,0,19300,2,
19288,19274,19301,0,
19284,0,19302,2,
19214,19290,19303,1,
19280,0,19304,2,
19279,12352,19305,0,
19281,19176,19306,0,
19293,18989,19307,0,
19292,19039,19308,0,
19062,19293,19309,0,
19295,19296,19310,0,
19305,0,19311,2,
19294,0,19312,2,
19287,19298,19313,1,
19298,19287,19314,0,
19299,19284,19315,0,
19289,19300,19316,0,
19292,0,19317,2,
19232,19301,19318,1,
18989,19306,19319,1,
19307,19107,19320,0,
19308,0,19321,2,
19307,19085,19322,0,
19177,19312,19323,0,
19131,19307,19324,0,
19319,19293,19325,1,
19310,19297,19326,0,
19304,19311,19327,0,
19297,19310,19328,1,
19299,19313,19329,0,
19185,19312,19330,0,
19314,0,19331,2,
19315,19313,19332,0,
19313,19299,19333,1,
19269,19316,19334,1,
11670,19311,19335,0,
19102,19317,19336,0,
19320,19108,19337,0,
19191,19321,19338,0,
19024,19323,19339,1,
19323,0,19340,2,
19325,0,19341,2,
19025,19336,19342,1,
19315,19328,19343,0,
19329,0,19344,2,
19330,19177,19345,0,
19332,19328,19346,0,
19332,19328,19347,1,
19327,0,19348,2,
19082,19338,19349,1,
19229,19340,19350,0,
19339,19322,19351,1,
19341,19297,19352,0,
19053,19340,19353,0,
19322,19339,19354,0,
19313,19341,19355,0,
19342,19307,19356,1,
19150,19340,19357,0,
19090,19340,19358,0,
19331,19344,19359,0,
19345,0,19360,2,
19341,19326,19361,1,
19349,19309,19362,1,
19352,19310,19363,0,
19353,0,19364,2,
19354,0,19365,2,
19343,19355,19366,0,
19357,0,19367,2,
19358,19053,19368,0,
19346,19361,19369,1,
19302,19359,19370,1,
19242,19360,19371,0,
19351,19090,19372,0,
19350,0,19373,2,
19362,0,19374,2,
19363,19356,19375,0,
19371,0,19376,2,
19364,19052,19377,0,
19356,19363,19378,1,
19243,19367,19379,0,
19368,0,19380,2,
19277,19373,19381,0,
19075,19379,19382,1,
19374,19356,19383,0,
19381,0,19384,2,
19377,19365,19385,0,
19362,19375,19386,1,
19366,19378,19387,0,
19378,19366,19388,1,
19117,19376,19389,0,
19163,19380,19390,0,
19383,19363,19391,0,
19382,19337,19392,1,
19188,19389,19393,1,
19382,0,19394,2,
19240,19384,19395,0,
19386,0,19396,2,
19090,19385,19397,1,
19384,19217,19398,0,
19019,19390,19399,1,
19384,19217,19400,1,
19391,19372,19401,0,
19392,0,19402,2,
19400,19393,19403,0,
19399,19324,19404,1,
19395,0,19405,2,
19391,19351,19406,0,
19351,19391,19407,1,
19387,19396,19408,0,
19398,0,19409,2,
19396,19387,19410,1,
19324,19394,19411,0,
19411,19399,19412,0,
19401,19404,19413,0,
19405,19226,19414,0,
19397,19406,19415,1,
19408,19407,19416,0,
19396,19407,19417,0,
19404,19401,19418,1,
19266,19405,19419,0,
19408,19407,19420,1,
19409,19245,19421,0,
19404,19402,19422,0,
19401,19422,19423,0,
19403,19412,19424,0,
19392,19413,19425,1,
19412,0,19426,2,
19164,19421,19427,1,
19412,19213,19428,0,
19414,0,19429,2,
19414,19266,19430,0,
19415,0,19431,2,
19417,19387,19432,0,
19412,19393,19433,0,
19200,19419,19434,1,
19280,19414,19435,0,
19414,19280,19436,0,
19435,0,19437,2,
19424,19427,19438,0,
19425,0,19439,2,
19403,19423,19440,0,
19424,0,19441,2,
19400,19433,19442,1,
19393,19426,19443,1,
19428,19403,19444,0,
19416,19431,19445,0,
19430,0,19446,2,
19431,19418,19447,0,
19431,19416,19448,1,
19429,19311,19449,0,
19436,0,19450,2,
19443,19423,19451,1,
19434,19438,19452,1,
19447,19432,19453,0,
19213,19440,19454,0,
19449,0,19455,2,
19441,19427,19456,1,
19446,19262,19457,0,
19418,19445,19458,1,
19335,19437,19459,0,
19450,19311,19460,0,
19443,0,19461,2,
19451,0,19462,2,
19423,19461,19463,0,
11670,19460,19464,1,
19459,0,19465,2,
19455,11877,19466,0,
12280,19457,19467,1,
19456,0,19468,2,
19454,0,19469,2,
19453,19439,19470,1,
19456,19440,19471,1,
19453,19439,19472,0,
19452,0,19473,2,
19462,19402,19474,0,
19442,19463,19475,1,
19467,0,19476,2,
19471,0,19477,2,
19466,19348,19478,0,
19440,19468,19479,0,
19467,19444,19480,1,
19462,19472,19481,1,
19465,11877,19482,0,
19474,19453,19483,0,
19473,19476,19484,0,
19475,19477,19485,0,
19444,19476,19486,0,
19454,19476,19487,0,
19452,19479,19488,1,
11670,19476,19489,0,
11810,19482,19490,1,
19478,0,19491,2,
19485,19483,19492,0,
19486,19464,19493,0,
19486,19464,19494,1,
12351,19491,19495,0,
19488,0,19496,2,
19454,19489,19497,0,
19483,19475,19498,0,
19483,19475,19499,1,
19494,19487,19500,1,
19484,19492,19501,0,
19490,19493,19502,1,
11028,19493,19503,0,
19492,19496,19504,0,
19497,0,19505,2,
19492,19496,19506,1,
19498,19477,19507,1,
19495,0,19508,2,
19501,19500,19509,0,
11028,19500,19510,0,
19504,0,19511,2,
19502,0,19512,2,
11023,19502,19513,0,
19497,19502,19514,0,
19501,19500,19515,1,
19503,0,19516,2,
12029,19508,19517,0,
10063,19500,19518,0,
19502,9619,19519,0,
11024,19517,19520,1,
19519,19509,19521,0,
19501,19510,19522,0,
19509,19513,19523,0,
19509,0,19524,2,
19511,19469,19525,0,
19518,19501,19526,0,
19514,0,19527,2,
19527,19516,19528,0,
19520,19521,19529,0,
9554,19522,19530,0,
8272,19522,19531,0,
19523,0,19532,2,
19524,19505,19533,0,
10012,19523,19534,0,
19525,19480,19535,1,
9760,19520,19536,0,
19526,19513,19537,0,
9760,19529,19538,1,
19520,19528,19539,1,
19536,19521,19540,0,
19512,19533,19541,1,
19532,9819,19542,1,
9959,19534,19543,1,
19537,0,19544,2,
19538,0,19545,2,
19539,0,19546,2,
19542,0,19547,2,
9556,19540,19548,1,
19544,10255,19549,1,
10433,19544,19550,0,
19543,0,19551,2,
19550,0,19552,2,
19522,19546,19553,0,
19531,19546,19554,0,
19549,4014,19555,0,
19522,19546,19556,1,
19548,0,19557,2,
19530,19546,19558,0,
8690,19558,19559,1,
19553,4580,19560,0,
19553,4382,19561,1,
9213,19554,19562,1,
19552,4014,19563,0,
31,19557,19564,0,
19563,0,19565,2,
19548,19559,19566,0,
7629,19560,19567,1,
19561,0,19568,2,
19547,19561,19569,0,
19562,0,19570,2,
19559,0,19571,2,
19568,10588,19572,0,
19566,0,19573,2,
19567,0,19574,2,
19569,19551,19575,0,
19567,19570,19576,0,
31,19565,19577,0,
19571,19545,19578,0,
19577,0,19579,2,
19572,0,19580,2,
19575,19576,19581,0,
19578,19564,19582,0,
19555,19573,19583,0,
19542,19579,19584,0,
196,19579,19585,0,
19543,19579,19586,0,
19583,0,19587,2,
19538,19579,19588,0,
19574,19579,19589,0,
19562,19579,19590,0,
19579,19548,19591,0,
19579,19568,19592,0,
19579,19559,19593,0,
19555,19580,19594,0,
19582,19581,19595,0,
19584,0,19596,2,
19595,0,19597,2,
19593,0,19598,2,
19591,0,19599,2,
19588,0,19600,2,
19589,0,19601,2,
19592,0,19602,2,
19590,0,19603,2,
19594,0,19604,2,
19586,0,19605,2,
19605,195,19606,0,
19604,19587,19607,0,
19585,19597,19608,0,
19597,19579,19609,0,
19604,313,19610,0,
19610,19587,19611,0,
19607,0,19612,2,
19609,0,19613,2,
19608,0,19614,2,
19611,0,19615,2,
19612,19579,19616,0,
589,19614,19617,0,
180,19613,19618,0,
269,19615,19619,0,
19615,195,19620,0,
19616,19597,19621,0,
19606,19615,19622,0,
19619,19601,19623,0,
19619,19603,19624,0,
19619,19602,19625,0,
19619,19600,19626,0,
19619,19599,19627,0,
19619,19598,19628,0,
19619,19596,19629,0,
19621,19470,19630,0,
19621,19481,19631,0,
19621,19458,19632,0,
19621,19506,19633,0,
19621,19499,19634,0,
19621,19507,19635,0,
19621,19369,19636,0,
19621,19388,19637,0,
19621,19448,19638,0,
19621,19410,19639,0,
19621,19420,19640,0,
19621,19541,19641,0,
19621,19535,19642,0,
19621,19515,19643,0,
19620,0,19644,2,
19621,19228,19645,0,
19621,19291,19646,0,
19621,19333,19647,0,
19621,19334,19648,0,
19621,19370,19649,0,
19621,19347,19650,0,
19621,19556,19651,0,
19621,19303,19652,0,
19621,19318,19653,0,
19622,0,19654,2,
19628,0,19655,2,
19624,0,19656,2,
19627,0,19657,2,
19626,0,19658,2,
19623,0,19659,2,
19625,0,19660,2,
19629,0,19661,2,
0,0,19662,1,
19662,19645,19663,1,
19662,19646,19664,1,
19662,19652,19665,1,
19662,19653,19666,1,
19662,19648,19667,1,
19662,19647,19668,1,
19662,19649,19669,1,
19662,19650,19670,1,
19662,19636,19671,1,
19662,19637,19672,1,
19662,19639,19673,1,
19662,19640,19674,1,
19662,19638,19675,1,
19662,19632,19676,1,
19662,19630,19677,1,
19662,19631,19678,1,
19662,19634,19679,1,
19662,19635,19680,1,
19662,19633,19681,1,
19662,19642,19682,1,
19662,19643,19683,1,
19662,19641,19684,1,
19662,19651,19685,1,
19662,19660,19686,1,
19662,19659,19687,1,
19662,19656,19688,1,
19662,19655,19689,1,
19662,19658,19690,1,
19662,19657,19691,1,
19662,19661,19692,1,
19662,19654,19693,1,
