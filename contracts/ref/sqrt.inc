6,0,32,2,
7,0,33,2,
4,0,34,2,
9,0,35,2,
18,0,36,2,
1,0,37,2,
0,0,38,2,
2,0,39,2,
21,0,40,2,
3,0,41,2,
8,0,42,2,
22,0,43,2,
5,0,44,2,
19,0,45,2,
11,0,46,2,
10,0,47,2,
20,0,48,2,
15,0,49,2,
14,0,50,2,
12,0,51,2,
13,0,52,2,
27,0,53,2,
26,0,54,2,
28,0,55,2,
29,0,56,2,
30,0,57,2,
25,0,58,2,
24,0,59,2,
23,0,60,2,
17,0,61,2,
16,0,62,2,
29,30,63,1,
26,25,64,0,
28,27,65,0,
30,29,66,0,
24,23,67,0,
32,33,68,0,
32,38,69,0,
44,33,70,0,
47,46,71,0,
41,34,72,0,
42,35,73,0,
36,45,74,0,
37,39,75,0,
43,40,76,0,
50,49,77,0,
51,52,78,0,
58,54,79,0,
53,55,80,0,
60,59,81,0,
56,57,82,0,
62,61,83,0,
39,41,84,0,
34,44,85,0,
47,46,86,0,
42,35,87,0,
51,52,88,0,
51,52,89,0,
36,45,90,0,
48,40,91,0,
50,49,92,0,
48,40,93,0,
1,39,94,0,
11,51,95,0,
4,44,96,0,
8,35,97,0,
16,61,98,0,
35,33,99,0,
35,33,100,0,
41,44,101,0,
49,61,102,0,
21,43,103,0,
48,43,104,0,
53,28,105,1,
27,55,106,0,
55,29,107,1,
28,56,108,0,
67,66,109,0,
65,64,110,0,
66,0,111,2,
68,34,112,0,
73,71,113,0,
69,75,114,0,
72,70,115,0,
83,74,116,0,
76,48,117,0,
78,77,118,0,
81,79,119,0,
80,82,120,0,
84,0,121,2,
86,0,122,2,
88,87,123,0,
90,0,124,2,
93,83,125,0,
94,0,126,2,
95,0,127,2,
99,6,128,0,
97,0,129,2,
100,96,130,0,
98,0,131,2,
102,0,132,2,
103,0,133,2,
106,0,134,2,
108,0,135,2,
110,109,136,0,
112,44,137,0,
116,117,138,0,
114,115,139,0,
118,113,140,0,
119,120,141,0,
118,113,142,0,
85,121,143,0,
89,122,144,0,
91,124,145,0,
127,52,146,0,
100,126,147,0,
128,0,148,2,
129,47,149,0,
131,36,150,0,
130,0,151,2,
136,0,152,2,
137,0,153,2,
138,139,154,0,
142,0,155,2,
143,0,156,2,
144,0,157,2,
145,0,158,2,
147,101,159,0,
146,0,160,2,
148,51,161,0,
150,50,162,0,
150,132,163,0,
149,151,164,0,
113,153,165,0,
154,140,166,0,
68,156,167,0,
92,157,168,0,
158,43,169,0,
159,0,170,2,
160,50,171,0,
163,0,172,2,
164,161,173,0,
165,0,174,2,
166,0,175,2,
141,166,176,0,
167,0,177,2,
169,141,178,0,
162,170,179,0,
171,150,180,0,
172,45,181,0,
176,0,182,2,
118,174,183,0,
141,175,184,0,
123,177,185,0,
178,175,186,0,
173,179,187,0,
180,0,188,2,
136,175,189,0,
31,176,190,0,
183,0,191,2,
184,138,192,0,
184,117,193,0,
185,0,194,2,
187,0,195,2,
181,188,196,0,
184,133,197,0,
31,182,198,0,
189,0,199,2,
116,191,200,0,
192,155,201,0,
142,192,202,0,
168,194,203,0,
196,195,204,0,
197,0,205,2,
22,21,206,1,
206,197,207,0,
22,207,208,1,
198,0,209,2,
200,0,210,2,
201,0,211,2,
202,0,212,2,
203,0,213,2,
204,0,214,2,
208,0,215,2,
209,199,216,0,
193,210,217,0,
125,213,218,0,
152,216,219,0,
104,214,220,0,
211,54,221,0,
212,53,222,0,
216,0,223,2,
136,216,224,0,
217,0,225,2,
218,0,226,2,
219,0,227,2,
219,182,228,0,
220,0,229,2,
201,217,230,0,
217,211,231,0,
217,212,232,0,
221,0,233,2,
221,25,234,0,
222,0,235,2,
222,26,236,0,
211,225,237,0,
186,226,238,0,
197,229,239,0,
201,225,240,0,
231,212,241,0,
225,58,242,0,
233,25,243,1,
234,0,244,2,
235,26,245,1,
236,0,246,2,
201,232,247,0,
202,231,248,0,
219,228,249,0,
228,0,250,2,
237,212,251,0,
238,0,252,2,
239,0,253,2,
12,238,254,0,
13,238,255,0,
2,238,256,0,
10,238,257,0,
5,238,258,0,
238,1,259,0,
238,4,260,0,
238,0,261,0,
15,238,262,0,
14,238,263,0,
17,238,264,0,
238,16,265,0,
238,11,266,0,
238,8,267,0,
239,1,268,0,
3,238,269,0,
237,202,270,0,
9,238,271,0,
242,0,272,2,
243,0,273,2,
245,0,274,2,
18,238,275,0,
20,238,276,0,
19,238,277,0,
7,238,278,0,
238,6,279,0,
1,252,280,0,
184,253,281,0,
11,252,282,0,
20,252,283,0,
9,252,284,0,
10,252,285,0,
12,252,286,0,
7,252,287,0,
279,253,288,0,
258,239,289,0,
2,252,290,0,
6,252,291,0,
14,252,292,0,
16,252,293,0,
18,252,294,0,
253,252,295,0,
259,253,296,0,
17,252,297,0,
15,252,298,0,
261,253,299,0,
260,253,300,0,
13,252,301,0,
260,239,302,0,
269,239,303,0,
19,252,304,0,
258,253,305,0,
261,239,306,0,
254,239,307,0,
262,239,308,0,
255,253,309,0,
278,239,310,0,
267,253,311,0,
264,253,312,0,
267,239,313,0,
265,239,314,0,
265,253,315,0,
271,253,316,0,
255,239,317,0,
263,253,318,0,
266,239,319,0,
254,253,320,0,
3,252,321,0,
5,252,322,0,
4,252,323,0,
269,253,324,0,
256,253,325,0,
0,252,326,0,
268,238,327,0,
256,239,328,0,
271,239,329,0,
257,253,330,0,
266,257,331,1,
331,239,332,0,
266,332,333,1,
262,263,334,1,
334,239,335,0,
262,335,336,1,
278,279,337,1,
337,239,338,0,
278,338,339,1,
252,59,340,0,
272,238,341,1,
242,252,342,0,
21,252,343,0,
275,239,344,0,
277,253,345,0,
276,277,346,1,
346,197,347,0,
276,347,348,1,
264,239,349,0,
275,253,350,0,
8,252,351,0,
281,0,352,2,
351,253,353,0,
287,239,354,0,
289,0,355,2,
288,0,356,2,
290,239,357,0,
287,253,358,0,
291,253,359,0,
291,239,360,0,
280,239,361,0,
321,253,362,0,
322,239,363,0,
305,0,364,2,
282,253,365,0,
295,2,366,0,
303,0,367,2,
284,239,368,0,
294,253,369,0,
285,253,370,0,
300,0,371,2,
285,239,372,0,
304,253,373,0,
306,0,374,2,
292,239,375,0,
301,239,376,0,
298,239,377,0,
293,253,378,0,
292,253,379,0,
298,253,380,0,
297,239,381,0,
299,0,382,2,
302,0,383,2,
294,239,384,0,
296,0,385,2,
308,0,386,2,
310,0,387,2,
319,0,388,2,
314,0,389,2,
315,0,390,2,
312,0,391,2,
307,0,392,2,
311,0,393,2,
320,0,394,2,
316,0,395,2,
318,0,396,2,
313,0,397,2,
309,0,398,2,
317,0,399,2,
295,4,400,0,
321,239,401,0,
322,253,402,0,
323,239,403,0,
328,0,404,2,
324,0,405,2,
286,253,406,0,
282,239,407,0,
327,0,408,2,
325,0,409,2,
280,253,410,0,
239,326,411,0,
301,286,412,1,
412,239,413,0,
301,413,414,1,
329,0,415,2,
297,293,416,1,
416,239,417,0,
297,417,418,1,
330,0,419,2,
284,351,420,1,
420,239,421,0,
284,421,422,1,
336,0,423,2,
333,0,424,2,
339,0,425,2,
295,0,426,0,
340,0,427,2,
342,0,428,2,
283,239,429,0,
343,205,430,0,
344,0,431,2,
345,0,432,2,
348,0,433,2,
283,304,434,1,
434,197,435,0,
283,435,436,1,
349,0,437,2,
350,0,438,2,
352,60,439,0,
354,0,440,2,
353,0,441,2,
356,355,442,0,
363,0,443,2,
361,0,444,2,
360,0,445,2,
357,0,446,2,
362,0,447,2,
359,0,448,2,
358,0,449,2,
379,0,450,2,
378,0,451,2,
365,0,452,2,
368,0,453,2,
372,0,454,2,
370,0,455,2,
375,0,456,2,
376,0,457,2,
377,0,458,2,
366,0,459,2,
371,367,460,0,
369,0,461,2,
381,0,462,2,
373,0,463,2,
380,0,464,2,
364,383,465,0,
384,0,466,2,
385,374,467,0,
394,388,468,0,
390,386,469,0,
396,399,470,0,
395,397,471,0,
398,392,472,0,
391,389,473,0,
393,387,474,0,
402,0,475,2,
400,0,476,2,
401,0,477,2,
403,0,478,2,
410,0,479,2,
409,408,480,0,
411,0,481,2,
406,0,482,2,
407,0,483,2,
405,404,484,0,
418,0,485,2,
414,0,486,2,
422,0,487,2,
419,415,488,0,
270,426,489,0,
240,426,490,0,
429,0,491,2,
430,0,492,2,
432,431,493,0,
433,215,494,0,
426,0,495,2,
436,0,496,2,
438,437,497,0,
439,0,498,2,
441,440,499,0,
444,382,500,0,
449,445,501,0,
447,446,502,0,
448,443,503,0,
461,462,504,0,
455,453,505,0,
451,458,506,0,
450,457,507,0,
452,454,508,0,
464,456,509,0,
463,466,510,0,
476,477,511,0,
475,478,512,0,
482,483,513,0,
479,481,514,0,
423,485,515,0,
424,486,516,0,
425,487,517,0,
489,0,518,2,
490,0,519,2,
439,212,520,0,
251,439,521,0,
492,491,522,0,
409,477,523,0,
476,225,524,0,
217,495,525,0,
497,496,526,0,
442,499,527,0,
460,503,528,0,
465,501,529,0,
500,459,530,0,
467,502,531,0,
473,510,532,0,
472,509,533,0,
469,504,534,0,
474,505,535,0,
468,507,536,0,
471,508,537,0,
470,506,538,0,
484,512,539,0,
480,511,540,0,
514,0,541,2,
488,513,542,0,
517,0,543,2,
516,0,544,2,
515,0,545,2,
498,212,546,0,
251,498,547,0,
521,426,548,0,
498,427,549,0,
498,340,550,1,
493,522,551,0,
523,408,552,0,
525,0,553,2,
526,0,554,2,
549,341,555,1,
527,0,556,2,
528,0,557,2,
531,0,558,2,
529,0,559,2,
530,0,560,2,
537,0,561,2,
535,0,562,2,
532,0,563,2,
534,0,564,2,
536,0,565,2,
533,0,566,2,
539,0,567,2,
540,0,568,2,
270,541,569,0,
538,0,570,2,
542,0,571,2,
241,544,572,0,
251,545,573,0,
240,543,574,0,
241,543,575,0,
230,541,576,0,
251,544,577,0,
251,543,578,0,
240,541,579,0,
231,541,580,0,
547,426,581,0,
521,541,582,0,
547,541,583,0,
548,0,584,2,
549,341,585,0,
247,543,586,0,
232,545,587,0,
240,544,588,0,
550,0,589,2,
552,524,590,0,
550,228,591,0,
251,554,592,0,
202,553,593,0,
550,555,594,1,
201,556,595,0,
270,560,596,0,
230,559,597,0,
270,558,598,0,
230,557,599,0,
251,564,600,0,
240,562,601,0,
241,565,602,0,
241,566,603,0,
251,563,604,0,
240,561,605,0,
230,568,606,0,
230,567,607,0,
240,556,608,0,
241,571,609,0,
251,570,610,0,
569,0,611,2,
573,0,612,2,
574,0,613,2,
572,0,614,2,
230,558,615,0,
240,559,616,0,
241,561,617,0,
251,566,618,0,
240,557,619,0,
230,560,620,0,
251,565,621,0,
241,562,622,0,
568,426,623,1,
623,217,624,0,
568,624,625,1,
240,567,626,0,
251,571,627,0,
576,0,628,2,
241,556,629,0,
577,0,630,2,
575,0,631,2,
251,561,632,0,
240,558,633,0,
240,560,634,0,
251,562,635,0,
241,557,636,0,
241,559,637,0,
251,556,638,0,
241,567,639,0,
578,0,640,2,
241,568,641,0,
579,0,642,2,
231,558,643,0,
237,559,644,0,
237,557,645,0,
231,560,646,0,
237,567,647,0,
580,0,648,2,
547,558,649,0,
521,560,650,0,
521,558,651,0,
547,560,652,0,
582,0,653,2,
583,0,654,2,
585,0,655,2,
555,0,656,2,
588,0,657,2,
270,567,658,0,
202,580,659,0,
586,0,660,2,
587,0,661,2,
240,565,662,0,
201,562,663,0,
248,560,664,0,
270,557,665,0,
589,228,666,0,
240,571,667,0,
590,0,668,2,
592,0,669,2,
584,654,670,0,
249,594,671,0,
595,0,672,2,
598,0,673,2,
596,0,674,2,
597,0,675,2,
599,0,676,2,
600,0,677,2,
602,0,678,2,
605,0,679,2,
601,0,680,2,
603,0,681,2,
604,0,682,2,
606,0,683,2,
607,0,684,2,
610,0,685,2,
609,0,686,2,
608,0,687,2,
614,613,688,0,
620,0,689,2,
621,0,690,2,
619,0,691,2,
617,0,692,2,
616,0,693,2,
622,0,694,2,
618,0,695,2,
615,0,696,2,
201,625,697,0,
627,0,698,2,
626,0,699,2,
629,0,700,2,
630,628,701,0,
633,0,702,2,
632,0,703,2,
635,0,704,2,
634,0,705,2,
636,0,706,2,
637,0,707,2,
638,0,708,2,
641,0,709,2,
642,640,710,0,
639,0,711,2,
646,0,712,2,
643,0,713,2,
645,0,714,2,
644,0,715,2,
647,0,716,2,
625,211,717,0,
651,0,718,2,
649,0,719,2,
650,0,720,2,
652,0,721,2,
428,655,722,0,
656,550,723,0,
594,550,724,0,
659,0,725,2,
658,0,726,2,
551,657,727,0,
661,660,728,0,
662,0,729,2,
663,0,730,2,
664,0,731,2,
665,0,732,2,
228,666,733,1,
667,0,734,2,
593,668,735,0,
735,0,736,2,
669,734,737,0,
653,721,738,0,
538,672,739,0,
675,673,740,0,
676,674,741,0,
678,680,742,0,
681,679,743,0,
684,611,744,0,
683,518,745,0,
686,687,746,0,
694,691,747,0,
695,696,748,0,
692,693,749,0,
690,689,750,0,
697,0,751,2,
631,699,752,0,
705,704,753,0,
702,703,754,0,
708,519,755,0,
710,711,756,0,
714,712,757,0,
715,713,758,0,
716,648,759,0,
717,520,760,0,
717,546,761,0,
720,719,762,0,
670,0,763,2,
722,0,764,2,
243,722,765,1,
726,725,766,0,
728,727,767,0,
494,729,768,0,
534,730,769,0,
732,731,770,0,
219,733,771,0,
227,671,772,1,
738,670,773,0,
739,0,774,2,
740,682,775,0,
736,737,776,0,
741,677,777,0,
745,685,778,0,
744,612,779,0,
748,749,780,0,
750,747,781,0,
698,751,782,0,
701,752,783,0,
754,707,784,0,
753,706,785,0,
755,709,786,0,
756,0,787,2,
758,0,788,2,
757,0,789,2,
759,0,790,2,
760,0,791,2,
761,0,792,2,
762,0,793,2,
273,764,794,0,
765,0,795,2,
765,723,796,1,
767,766,797,0,
769,0,798,2,
670,738,799,1,
768,439,800,0,
774,232,801,0,
777,742,802,0,
775,743,803,0,
778,746,804,0,
779,688,805,0,
781,0,806,2,
780,0,807,2,
782,700,808,0,
783,0,809,2,
784,0,810,2,
785,0,811,2,
786,0,812,2,
546,788,813,0,
520,789,814,0,
520,788,815,0,
546,789,816,0,
520,790,817,0,
546,790,818,0,
718,792,819,0,
773,0,820,2,
794,0,821,2,
723,795,822,0,
797,0,823,2,
796,0,824,2,
798,232,825,0,
801,0,826,2,
803,0,827,2,
802,0,828,2,
805,0,829,2,
804,0,830,2,
807,806,831,1,
831,439,832,0,
807,832,833,1,
808,0,834,2,
806,809,835,1,
835,439,836,0,
806,836,837,1,
810,811,838,1,
838,439,839,0,
810,839,840,1,
787,812,841,1,
841,439,842,0,
787,842,843,1,
811,787,844,1,
844,439,845,0,
811,845,846,1,
812,498,847,0,
815,0,848,2,
814,0,849,2,
813,0,850,2,
818,0,851,2,
817,0,852,2,
816,0,853,2,
819,762,854,0,
762,819,855,1,
244,821,856,0,
439,823,857,0,
824,228,858,0,
825,0,859,2,
849,850,860,0,
776,826,861,0,
439,827,862,0,
827,828,863,1,
863,439,864,0,
827,864,865,1,
829,830,866,1,
866,439,867,0,
829,867,868,1,
828,829,869,1,
869,439,870,0,
828,870,871,1,
830,807,872,1,
872,439,873,0,
830,873,874,1,
833,0,875,2,
809,834,876,1,
876,439,877,0,
809,877,878,1,
837,0,879,2,
834,810,880,1,
880,439,881,0,
834,881,882,1,
840,0,883,2,
846,0,884,2,
843,0,885,2,
847,0,886,2,
851,791,887,0,
852,853,888,0,
854,0,889,2,
856,0,890,2,
245,856,891,1,
857,0,892,2,
228,858,893,1,
770,859,894,0,
800,894,895,0,
861,0,896,2,
862,0,897,2,
865,0,898,2,
871,0,899,2,
797,861,900,1,
900,439,901,0,
797,901,902,1,
868,0,903,2,
874,0,904,2,
878,0,905,2,
882,0,906,2,
885,884,907,0,
886,848,908,0,
888,887,909,0,
860,0,910,2,
887,0,911,2,
887,888,912,1,
274,890,913,0,
891,0,914,2,
891,822,915,1,
894,768,916,0,
219,893,917,0,
896,498,918,0,
903,899,919,0,
875,904,920,0,
905,879,921,0,
883,906,922,0,
907,0,923,2,
908,860,924,0,
909,0,925,2,
860,908,926,1,
913,0,927,2,
822,914,928,0,
796,915,929,0,
916,797,930,1,
930,439,931,0,
916,931,932,1,
902,439,933,0,
916,0,934,2,
915,0,935,2,
902,892,936,0,
902,0,937,2,
895,0,938,2,
918,0,939,2,
920,0,940,2,
921,0,941,2,
919,0,942,2,
922,0,943,2,
923,885,944,0,
924,0,945,2,
246,927,946,0,
439,934,947,0,
933,0,948,2,
932,0,949,2,
935,228,950,0,
934,498,951,0,
895,937,952,0,
897,939,953,0,
940,875,954,0,
941,905,955,0,
942,903,956,0,
942,899,957,0,
943,883,958,0,
946,0,959,2,
105,946,960,1,
228,950,961,1,
936,947,962,0,
948,949,963,0,
951,0,964,2,
952,0,965,2,
947,0,966,2,
895,949,967,0,
967,0,968,2,
966,965,969,0,
953,898,970,0,
957,0,971,2,
105,959,972,0,
822,960,973,0,
960,928,974,1,
963,0,975,2,
962,0,976,2,
219,961,977,0,
964,892,978,0,
969,968,979,0,
976,975,980,0,
970,0,981,2,
972,0,982,2,
973,914,983,0,
974,0,984,2,
974,228,985,0,
978,902,986,0,
979,0,987,2,
938,986,988,1,
981,902,989,1,
134,982,990,0,
902,981,991,0,
228,985,992,1,
979,228,993,0,
979,981,994,1,
994,902,995,0,
979,995,996,1,
980,0,997,2,
219,987,998,0,
987,902,999,1,
990,0,1000,2,
107,990,1001,1,
724,987,1002,0,
219,992,1003,0,
991,0,1004,2,
996,997,1005,0,
439,988,1006,0,
999,0,1007,2,
107,1000,1008,0,
1001,983,1009,1,
983,1001,1010,0,
1005,0,1011,2,
1006,0,1012,2,
1012,1011,1013,0,
1008,0,1014,2,
1009,0,1015,2,
228,1009,1016,0,
979,1007,1017,0,
1013,0,1018,2,
1013,953,1019,0,
989,1007,1020,1,
1020,1013,1021,0,
989,1021,1022,1,
980,1013,1023,0,
135,1014,1024,0,
1015,984,1025,0,
228,1016,1026,1,
1013,228,1027,0,
1017,0,1028,2,
1018,898,1029,1,
1019,0,1030,2,
919,1018,1031,1,
1031,865,1032,0,
919,1032,1033,1,
1022,0,1034,2,
1023,0,1035,2,
1024,0,1036,2,
1025,929,1037,0,
979,1022,1038,0,
1018,998,1039,0,
219,1026,1040,0,
1018,898,1041,0,
1004,1028,1042,0,
1041,865,1043,1,
1043,953,1044,0,
1041,1044,1045,1,
1029,0,1046,2,
1029,1018,1047,0,
1033,0,1048,2,
980,1042,1049,1,
1036,63,1050,1,
1036,63,1051,0,
1033,987,1052,0,
1030,1022,1053,0,
1013,1046,1054,0,
1045,0,1055,2,
1047,0,1056,2,
1049,1035,1057,0,
1050,0,1058,2,
1051,0,1059,2,
1050,1010,1060,1,
1038,1048,1061,0,
1052,0,1062,2,
1054,0,1063,2,
1030,1055,1064,0,
983,1058,1065,0,
1059,111,1066,0,
1060,0,1067,2,
1053,1055,1068,0,
1061,0,1069,2,
1057,0,1070,2,
1064,979,1071,0,
1068,1062,1072,0,
1070,1069,1073,0,
1064,0,1074,2,
1056,1063,1075,0,
1065,1001,1076,0,
1066,0,1077,2,
228,1067,1078,0,
1072,0,1079,2,
1074,987,1080,0,
1071,0,1081,2,
1071,1048,1082,0,
919,1075,1083,1,
1073,0,1084,2,
956,1072,1085,0,
1076,0,1086,2,
228,1078,1087,1,
1073,1079,1088,0,
1033,1080,1089,1,
1080,0,1090,2,
1082,0,1091,2,
956,1084,1092,0,
1085,0,1093,2,
1086,1077,1094,0,
219,1087,1095,0,
1088,0,1096,2,
1089,1081,1097,0,
1090,1048,1098,0,
1083,1029,1099,1,
1099,1088,1100,0,
1083,1100,1101,1,
1088,1022,1102,0,
1088,899,1103,0,
1092,0,1104,2,
1094,0,1105,2,
1088,228,1106,0,
1101,979,1107,1,
1097,1064,1108,1,
1108,1088,1109,0,
1097,1109,1110,1,
1098,0,1111,2,
1101,0,1112,2,
1102,0,1113,2,
1096,903,1114,1,
1103,0,1115,2,
1104,971,1116,0,
1096,1018,1117,0,
228,1105,1118,0,
1096,1039,1119,0,
979,1112,1120,0,
1107,0,1121,2,
1110,0,1122,2,
1111,1081,1123,0,
1114,1088,1124,1,
1114,0,1125,2,
1093,1115,1126,0,
228,1118,1127,1,
591,1119,1128,0,
1126,1116,1129,0,
1122,1091,1130,0,
1034,1123,1131,0,
1124,0,1132,2,
1088,1125,1133,0,
1124,920,1134,1,
219,1127,1135,0,
1120,0,1136,2,
1130,0,1137,2,
1131,0,1138,2,
1132,940,1139,0,
1133,0,1140,2,
1129,1013,1141,1,
1013,1129,1142,0,
227,1135,1143,1,
1137,1121,1144,0,
1120,1137,1145,0,
1057,1138,1146,0,
1139,0,1147,2,
1142,0,1148,2,
1145,0,1149,2,
1146,0,1150,2,
1140,1147,1151,0,
920,1144,1152,0,
1149,1113,1153,0,
1151,0,1154,2,
1153,1150,1155,0,
1154,1141,1156,1,
1154,1141,1157,0,
1155,0,1158,2,
1157,0,1159,2,
920,1158,1160,0,
1159,1148,1161,0,
1161,0,1162,2,
1160,0,1163,2,
1107,1161,1164,1,
1152,1162,1165,0,
1121,1162,1166,0,
1162,1144,1167,0,
1167,0,1168,2,
1165,0,1169,2,
1166,0,1170,2,
1155,1168,1171,0,
1170,1136,1172,0,
904,1169,1173,0,
1171,0,1174,2,
1164,1112,1175,1,
1175,1171,1176,0,
1164,1176,1177,1,
1173,1163,1178,0,
1171,833,1179,0,
1134,1125,1180,1,
1180,1171,1181,0,
1134,1181,1182,1,
1156,1129,1183,1,
1183,1171,1184,0,
1156,1184,1185,1,
1171,228,1186,0,
1130,1171,1187,0,
1130,1172,1188,1,
979,1185,1189,0,
1013,1182,1190,0,
1174,875,1191,1,
954,1174,1192,0,
1178,0,1193,2,
1179,0,1194,2,
1182,1013,1195,1,
1185,979,1196,1,
1177,0,1197,2,
1187,0,1198,2,
1189,0,1199,2,
1196,1177,1200,0,
1188,1198,1201,0,
1191,1171,1202,1,
1192,0,1203,2,
1088,1195,1204,0,
1190,0,1205,2,
1195,0,1206,2,
1191,0,1207,2,
1196,0,1208,2,
1189,1177,1209,0,
1209,0,1210,2,
1202,0,1211,2,
1203,1193,1212,0,
1204,1200,1213,0,
1190,1200,1214,0,
1201,0,1215,2,
1214,0,1216,2,
941,1211,1217,0,
1212,0,1218,2,
1088,1212,1219,0,
1204,1212,1220,0,
941,1211,1221,1,
1213,1212,1222,0,
1217,0,1223,2,
1218,1088,1224,1,
1219,0,1225,2,
1220,0,1226,2,
1216,1210,1227,0,
1222,0,1228,2,
1227,1215,1229,0,
1223,1194,1230,0,
1224,0,1231,2,
1226,1205,1232,0,
1230,0,1233,2,
1200,1231,1234,0,
1233,1231,1235,0,
1195,1233,1236,0,
1233,1231,1237,1,
1235,0,1238,2,
1236,1231,1239,0,
1234,1236,1240,0,
1225,1238,1241,0,
1239,0,1242,2,
1240,0,1243,2,
1232,1242,1244,0,
1228,1243,1245,0,
1206,1241,1246,1,
1245,1229,1247,0,
1208,1244,1248,1,
1244,0,1249,2,
1237,1212,1250,1,
1250,1247,1251,0,
1237,1251,1252,1,
1196,1249,1253,0,
1247,0,1254,2,
1247,878,1255,0,
1221,1207,1256,1,
1256,1247,1257,0,
1221,1257,1258,1,
1246,1182,1259,1,
1259,1247,1260,0,
1246,1260,1261,1,
1248,1185,1262,1,
1262,1247,1263,0,
1248,1263,1264,1,
1197,1247,1265,0,
1247,228,1266,0,
1261,979,1267,1,
1253,0,1268,2,
1252,1013,1269,1,
921,1254,1270,0,
1254,905,1271,1,
955,1254,1272,0,
1255,0,1273,2,
1258,1088,1274,1,
979,1261,1275,0,
1264,0,1276,2,
1254,1174,1277,0,
1265,0,1278,2,
1013,1252,1279,0,
1088,1258,1280,0,
1280,0,1281,2,
1279,0,1282,2,
1275,1264,1283,0,
1270,0,1284,2,
1271,1247,1285,1,
1272,0,1286,2,
1271,0,1287,2,
1269,0,1288,2,
1274,0,1289,2,
1275,0,1290,2,
1171,1274,1291,0,
1268,1199,1292,0,
1288,1282,1293,0,
1284,879,1294,0,
1285,0,1295,2,
1281,1282,1296,0,
1283,0,1297,2,
1197,1292,1298,1,
1298,1278,1299,0,
1294,0,1300,2,
943,1295,1301,0,
1293,0,1302,2,
943,1295,1303,1,
1264,1302,1304,0,
1286,1300,1305,0,
1301,0,1306,2,
1299,0,1307,2,
1305,0,1308,2,
1306,1273,1309,0,
1171,1305,1310,0,
1291,1305,1311,0,
1307,1297,1312,0,
1304,1267,1313,0,
1308,1171,1314,1,
1309,0,1315,2,
1310,0,1316,2,
1311,0,1317,2,
1314,0,1318,2,
1274,1315,1319,0,
1315,1318,1320,1,
1315,1318,1321,0,
1319,1318,1322,0,
1321,0,1323,2,
1322,0,1324,2,
1316,1323,1325,0,
1317,1324,1326,0,
1296,1326,1327,0,
1326,1296,1328,0,
1326,1281,1329,0,
1289,1325,1330,1,
1328,0,1331,2,
1288,1329,1332,1,
1327,0,1333,2,
1313,1333,1334,0,
1331,1302,1335,0,
1335,1267,1336,0,
1335,1267,1337,1,
1334,0,1338,2,
1312,1338,1339,0,
1336,0,1340,2,
1339,0,1341,2,
1320,1305,1342,1,
1342,1339,1343,0,
1320,1343,1344,1,
1303,1287,1345,1,
1345,1339,1346,0,
1303,1346,1347,1,
1276,1339,1348,0,
1332,1252,1349,1,
1349,1339,1350,0,
1332,1350,1351,1,
1330,1258,1352,1,
1352,1339,1353,0,
1330,1353,1354,1,
1339,840,1355,0,
1340,1290,1356,0,
1337,1261,1357,1,
1357,1339,1358,0,
1337,1358,1359,1,
1339,228,1360,0,
1341,883,1361,1,
922,1341,1362,0,
1344,1088,1363,1,
1088,1344,1364,0,
1171,1347,1365,0,
958,1341,1366,0,
1276,1356,1367,1,
1348,0,1368,2,
1355,0,1369,2,
1354,1013,1370,1,
1351,979,1371,1,
979,1351,1372,0,
1013,1354,1373,0,
1347,1171,1374,1,
1359,0,1375,2,
1362,0,1376,2,
1361,1339,1377,1,
1364,0,1378,2,
1363,0,1379,2,
1365,0,1380,2,
1366,0,1381,2,
1371,1359,1382,0,
1367,1368,1383,0,
1372,1359,1384,0,
1247,1374,1385,0,
1374,0,1386,2,
1361,0,1387,2,
1370,0,1388,2,
1373,0,1389,2,
1371,0,1390,2,
1372,0,1391,2,
1377,0,1392,2,
1376,906,1393,0,
1379,1378,1394,0,
1380,1378,1395,0,
1384,0,1396,2,
1373,1382,1397,0,
1383,0,1398,2,
923,1392,1399,0,
1393,0,1400,2,
1394,0,1401,2,
1398,1396,1402,0,
1397,0,1403,2,
923,1392,1404,1,
1381,1400,1405,0,
1399,0,1406,2,
1370,1401,1407,0,
1402,1403,1408,0,
1405,0,1409,2,
1406,1369,1410,0,
1382,1407,1411,0,
1385,1405,1412,0,
1247,1405,1413,0,
1409,1247,1414,1,
1410,0,1415,2,
1412,0,1416,2,
1413,0,1417,2,
1374,1415,1418,0,
1414,0,1419,2,
1418,1419,1420,0,
1415,1419,1421,0,
1415,1419,1422,1,
1420,0,1423,2,
1421,0,1424,2,
1416,1423,1425,0,
1417,1424,1426,0,
1425,1395,1427,0,
1425,1380,1428,0,
1386,1426,1429,1,
1427,0,1430,2,
1379,1428,1431,1,
1428,0,1432,2,
1411,1430,1433,0,
1363,1432,1434,0,
1407,1430,1435,0,
1433,0,1436,2,
1434,0,1437,2,
1435,0,1438,2,
1408,1436,1439,0,
1437,1378,1440,0,
1438,1389,1441,0,
1404,1387,1442,1,
1442,1439,1443,0,
1404,1443,1444,1,
1439,0,1445,2,
1439,843,1446,0,
1429,1347,1447,1,
1447,1439,1448,0,
1429,1448,1449,1,
1431,1344,1450,1,
1450,1439,1451,0,
1431,1451,1452,1,
1422,1405,1453,1,
1453,1439,1454,0,
1422,1454,1455,1,
1388,1440,1456,1,
1439,925,1457,0,
1390,1441,1458,1,
1441,0,1459,2,
1375,1439,1460,0,
1439,228,1461,0,
1247,1444,1462,0,
1171,1455,1463,0,
907,1445,1464,0,
1445,885,1465,1,
944,1445,1466,0,
1446,0,1467,2,
1452,1013,1468,1,
1088,1449,1469,0,
1455,1171,1470,1,
1013,1452,1471,0,
1444,1247,1472,1,
908,1445,1473,0,
1449,1088,1474,1,
1456,1354,1475,1,
1475,1439,1476,0,
1456,1476,1477,1,
1458,1351,1478,1,
1478,1439,1479,0,
1458,1479,1480,1,
1445,1341,1481,0,
1371,1459,1482,0,
1455,0,1483,2,
1460,0,1484,2,
1470,0,1485,2,
1464,0,1486,2,
1465,1439,1487,1,
1466,0,1488,2,
1462,0,1489,2,
1469,1468,1490,0,
1471,0,1491,2,
1463,0,1492,2,
1473,0,1493,2,
1474,0,1494,2,
1472,0,1495,2,
1477,979,1496,1,
1469,0,1497,2,
1468,0,1498,2,
979,1477,1499,0,
1465,0,1500,2,
1480,0,1501,2,
1482,0,1502,2,
1339,1472,1503,0,
1474,1468,1504,0,
1496,1480,1505,0,
1486,884,1506,0,
1487,0,1507,2,
1490,0,1508,2,
1487,924,1509,1,
1499,0,1510,2,
1496,0,1511,2,
1489,1492,1512,0,
1502,1391,1513,0,
1499,1480,1514,0,
1485,1492,1515,0,
1483,1485,1516,0,
1508,1491,1517,0,
1506,0,1518,2,
1507,945,1519,0,
1375,1513,1520,1,
1516,0,1521,2,
1514,0,1522,2,
1515,0,1523,2,
1504,1521,1524,0,
1488,1518,1525,0,
1519,0,1526,2,
1520,1484,1527,0,
1474,1523,1528,0,
1517,0,1529,2,
1505,1529,1530,0,
1525,0,1531,2,
1526,1467,1532,0,
1339,1525,1533,0,
1503,1525,1534,0,
1527,0,1535,2,
1505,1524,1536,0,
1531,1339,1537,1,
1532,0,1538,2,
1533,0,1539,2,
1534,0,1540,2,
1530,0,1541,2,
1535,1522,1542,0,
1537,0,1543,2,
1472,1538,1544,0,
1542,1541,1545,0,
1538,1543,1546,0,
1538,1543,1547,1,
1544,1543,1548,0,
1546,0,1549,2,
1548,0,1550,2,
1539,1549,1551,0,
1540,1550,1552,0,
1552,1489,1553,0,
1495,1551,1554,1,
1552,1512,1555,0,
1555,0,1556,2,
1485,1553,1557,1,
1553,0,1558,2,
1556,1536,1559,0,
1524,1556,1560,0,
1528,1556,1561,0,
1470,1558,1562,0,
1560,0,1563,2,
1561,0,1564,2,
1562,0,1565,2,
1559,0,1566,2,
1545,1566,1567,0,
1517,1563,1568,0,
1565,1492,1569,0,
1564,1497,1570,0,
1567,0,1571,2,
1557,1455,1572,1,
1572,1567,1573,0,
1557,1573,1574,1,
1567,908,1575,0,
1494,1569,1576,1,
1568,0,1577,2,
1567,910,1578,0,
1567,1493,1579,0,
1554,1444,1580,1,
1580,1567,1581,0,
1554,1581,1582,1,
1547,1525,1583,1,
1583,1567,1584,0,
1547,1584,1585,1,
1509,1500,1586,1,
1586,1567,1587,0,
1509,1587,1588,1,
1498,1570,1589,1,
1501,1567,1590,0,
1511,1568,1591,1,
1567,889,1592,0,
1567,228,1593,0,
1571,860,1594,1,
1574,1088,1595,1,
1575,0,1596,2,
1496,1577,1597,0,
1578,0,1598,2,
1576,1449,1599,1,
1599,1567,1600,0,
1576,1600,1601,1,
1579,0,1602,2,
1582,1171,1603,1,
1575,1445,1604,0,
1585,1247,1605,1,
1589,1452,1606,1,
1606,1567,1607,0,
1589,1607,1608,1,
1588,1339,1609,1,
1171,1582,1610,0,
1591,1477,1611,1,
1611,1567,1612,0,
1591,1612,1613,1,
1590,0,1614,2,
1088,1574,1615,0,
1247,1585,1616,0,
1339,1588,1617,0,
888,1571,1618,0,
1592,887,1619,0,
860,1571,1620,0,
1620,0,1621,2,
1594,1567,1622,1,
1594,0,1623,2,
1595,0,1624,2,
1439,1596,1625,0,
1597,0,1626,2,
1601,1013,1627,1,
1605,1588,1628,0,
1604,0,1629,2,
1013,1601,1630,0,
1603,1585,1631,0,
979,1608,1632,0,
1605,1603,1633,0,
1610,0,1634,2,
1608,979,1635,1,
1615,0,1636,2,
1616,0,1637,2,
1617,0,1638,2,
1605,0,1639,2,
1603,0,1640,2,
1609,0,1641,2,
1613,0,1642,2,
1618,0,1643,2,
1619,0,1644,2,
1622,0,1645,2,
1457,1623,1646,0,
1624,1096,1647,0,
1625,0,1648,2,
1626,1510,1649,0,
1621,860,1650,1,
1650,908,1651,0,
1621,1651,1652,1,
1630,0,1653,2,
1631,1247,1654,0,
1609,1629,1655,0,
1628,1339,1656,0,
1632,1613,1657,0,
1635,1613,1658,0,
1622,909,1659,1,
1627,0,1660,2,
1635,0,1661,2,
1632,0,1662,2,
1645,925,1663,0,
1646,0,1664,2,
1647,0,1665,2,
1652,1596,1666,0,
1501,1649,1667,1,
1654,0,1668,2,
1656,1603,1669,0,
1657,0,1670,2,
1636,1653,1671,0,
1656,0,1672,2,
1663,0,1673,2,
1602,1664,1674,0,
1627,1665,1675,0,
1667,1614,1676,0,
1666,0,1677,2,
1668,1634,1678,0,
1669,0,1679,2,
1439,1666,1680,0,
1637,1672,1681,0,
1673,1598,1682,0,
1674,926,1683,0,
1675,0,1684,2,
1677,1439,1685,1,
1676,0,1686,2,
1678,1679,1687,0,
1680,0,1688,2,
1682,1648,1689,0,
1683,0,1690,2,
1684,1653,1691,0,
1685,0,1692,2,
1682,0,1693,2,
1686,1670,1694,0,
1685,1682,1695,1,
1689,0,1696,2,
1633,1690,1697,0,
1691,0,1698,2,
1694,1687,1699,0,
1692,1693,1700,0,
1655,1696,1701,0,
1658,1698,1702,0,
1700,0,1703,2,
1697,1701,1704,0,
1701,1690,1705,0,
1702,0,1706,2,
1688,1703,1707,0,
1704,0,1708,2,
1705,1605,1709,0,
1694,1706,1710,0,
1705,0,1711,2,
1641,1707,1712,1,
1671,1708,1713,0,
1636,1708,1714,0,
1709,0,1715,2,
1638,1711,1716,0,
1687,1708,1717,0,
1710,0,1718,2,
1699,1713,1719,0,
1714,1687,1720,0,
1681,1715,1721,0,
1717,0,1722,2,
1639,1716,1723,1,
1624,1717,1724,1,
1719,0,1725,2,
1640,1721,1726,1,
1720,0,1727,2,
1595,1722,1728,0,
1718,1725,1729,0,
1675,1727,1730,0,
1728,0,1731,2,
1729,0,1732,2,
1585,1723,1733,1,
1733,1729,1734,0,
1585,1734,1735,1,
1582,1726,1736,1,
1736,1729,1737,0,
1582,1737,1738,1,
1588,1712,1739,1,
1739,1729,1740,0,
1588,1740,1741,1,
1666,1695,1742,1,
1742,1729,1743,0,
1666,1743,1744,1,
1730,0,1745,2,
1623,1659,1746,1,
1746,1729,1747,0,
1623,1747,1748,1,
1731,1636,1749,0,
1574,1724,1750,1,
1750,1729,1751,0,
1574,1751,1752,1,
819,1729,1753,0,
1729,1571,1754,0,
1729,887,1755,0,
1741,1247,1756,1,
1744,1339,1757,1,
1738,1088,1758,1,
1735,1171,1759,1,
1745,1653,1760,0,
1088,1738,1761,0,
1247,1741,1762,0,
1660,1749,1763,1,
1732,887,1764,1,
888,1732,1765,0,
1752,1013,1766,1,
1013,1752,1767,0,
1642,1732,1768,0,
1732,911,1769,0,
1643,1732,1770,0,
1748,1439,1771,1,
820,1732,1772,0,
1753,0,1773,2,
1439,1748,1774,0,
1339,1744,1775,0,
1171,1735,1776,0,
1754,1481,1777,0,
228,1732,1778,0,
1755,0,1779,2,
1759,1758,1780,0,
1756,1744,1781,0,
1757,1748,1782,0,
1760,0,1783,2,
1758,1735,1784,0,
1761,0,1785,2,
1661,1760,1786,1,
1762,0,1787,2,
1601,1763,1788,1,
1788,1729,1789,0,
1601,1789,1790,1,
1764,1729,1791,1,
1779,887,1792,1,
1792,888,1793,0,
1779,1793,1794,1,
1765,0,1795,2,
1768,0,1796,2,
1769,0,1797,2,
1770,0,1798,2,
1765,1571,1799,0,
1771,0,1800,2,
1764,0,1801,2,
1774,0,1802,2,
1757,0,1803,2,
1775,0,1804,2,
1757,1756,1805,0,
1756,0,1806,2,
1759,0,1807,2,
1776,0,1808,2,
1758,0,1809,2,
1766,0,1810,2,
1777,1277,1811,0,
1767,0,1812,2,
1782,1439,1813,0,
1781,1339,1814,0,
1780,0,1815,2,
1635,1783,1816,0,
1784,0,1817,2,
1790,979,1818,1,
1608,1786,1819,1,
1819,1729,1820,0,
1608,1820,1821,1,
979,1790,1822,0,
1791,0,1823,2,
1794,1795,1824,0,
1567,1795,1825,0,
1799,0,1826,2,
1798,1644,1827,0,
1807,1808,1828,0,
1811,1117,1829,0,
1808,1785,1830,0,
1815,1785,1831,0,
1813,1756,1832,0,
1814,0,1833,2,
1816,0,1834,2,
1818,1821,1835,0,
1822,1821,1836,0,
1823,889,1837,0,
1824,0,1838,2,
1825,0,1839,2,
1567,1824,1840,0,
1771,1826,1841,0,
1827,912,1842,0,
854,1823,1843,1,
1813,0,1844,2,
1828,0,1845,2,
1829,1002,1846,0,
1818,0,1847,2,
1821,0,1848,2,
1822,0,1849,2,
1832,0,1850,2,
1833,1787,1851,0,
1831,1817,1852,0,
1834,1662,1853,0,
1767,1835,1854,0,
1837,0,1855,2,
1836,0,1856,2,
1838,1567,1857,1,
1840,0,1858,2,
1842,0,1859,2,
1804,1844,1860,0,
1851,1850,1861,0,
1852,0,1862,2,
1642,1853,1863,1,
1854,0,1864,2,
1855,1797,1865,0,
1857,0,1866,2,
1805,1859,1867,0,
1766,1862,1868,0,
1863,1796,1869,0,
1856,1864,1870,0,
1865,0,1871,2,
1865,1839,1872,0,
1857,1865,1873,1,
1835,1868,1874,0,
1869,0,1875,2,
1866,1871,1876,0,
1872,0,1877,2,
1870,1875,1878,0,
1876,0,1879,2,
1841,1877,1880,0,
1858,1879,1881,0,
1880,1859,1882,0,
1880,1867,1883,0,
1878,0,1884,2,
581,1878,1885,0,
1800,1881,1886,1,
1882,0,1887,2,
1882,1757,1888,0,
1883,0,1889,2,
738,1884,1890,0,
1830,1889,1891,0,
1802,1887,1892,0,
1888,0,1893,2,
1861,1889,1894,0,
1889,1808,1895,0,
1890,0,1896,2,
1891,1861,1897,0,
1803,1892,1898,1,
1860,1893,1899,0,
1807,1894,1900,1,
1894,0,1901,2,
1895,1861,1902,0,
1897,0,1903,2,
1899,1806,1904,1,
1759,1901,1905,0,
1902,0,1906,2,
1874,1903,1907,0,
1905,0,1908,2,
1845,1906,1909,0,
1868,1903,1910,0,
1907,0,1911,2,
1908,1808,1912,0,
1909,1758,1913,0,
1910,0,1914,2,
1878,1911,1915,0,
1809,1912,1916,1,
1913,0,1917,2,
1914,1812,1918,0,
1915,0,1919,2,
1915,819,1920,0,
1915,1773,1921,0,
1915,793,1922,0,
1843,1801,1923,1,
1923,1915,1924,0,
1843,1924,1925,1,
1886,1748,1926,1,
1926,1915,1927,0,
1886,1927,1928,1,
1873,1824,1929,1,
1929,1915,1930,0,
1873,1930,1931,1,
1898,1744,1932,1,
1932,1915,1933,0,
1898,1933,1934,1,
1904,1741,1935,1,
1935,1915,1936,0,
1904,1936,1937,1,
1900,1735,1938,1,
1938,1915,1939,0,
1900,1939,1940,1,
1916,1738,1941,1,
1941,1915,1942,0,
1916,1942,1943,1,
1917,1785,1944,0,
1847,1918,1945,1,
1918,0,1946,2,
1848,1915,1947,0,
1915,228,1948,0,
1919,762,1949,1,
1920,0,1950,2,
1921,0,1951,2,
1922,0,1952,2,
1925,1567,1953,1,
1920,1729,1954,0,
1931,1439,1955,1,
1925,0,1956,2,
1928,1339,1957,1,
1339,1928,1958,0,
1934,1247,1959,1,
1247,1934,1960,0,
1937,1171,1961,1,
1171,1937,1962,0,
1940,1088,1963,1,
1088,1940,1964,0,
1943,1013,1965,1,
1439,1931,1966,0,
1810,1944,1967,1,
1013,1943,1968,0,
1945,1790,1969,1,
1969,1915,1970,0,
1945,1970,1971,1,
1818,1946,1972,0,
1947,0,1973,2,
762,1919,1974,0,
1949,0,1975,2,
1950,1732,1976,0,
1954,0,1977,2,
1953,0,1978,2,
1957,1931,1979,0,
1955,1956,1980,0,
1955,1957,1981,0,
1958,0,1982,2,
1960,0,1983,2,
1959,0,1984,2,
1962,0,1985,2,
1963,0,1986,2,
1961,0,1987,2,
1949,1915,1988,1,
1567,1956,1989,0,
1955,0,1990,2,
1964,0,1991,2,
1965,1940,1992,0,
1966,0,1993,2,
1965,0,1994,2,
1968,0,1995,2,
1967,1752,1996,1,
1996,1915,1997,0,
1967,1997,1998,1,
1957,0,1999,2,
1961,1963,2000,0,
1971,0,2001,2,
1972,0,2002,2,
1962,1963,2003,0,
1974,0,2004,2,
1772,1975,2005,0,
1976,0,2006,2,
1978,1977,2007,0,
1980,1567,2008,0,
1979,1439,2009,0,
1984,1254,2010,0,
2004,762,2011,1,
2011,819,2012,0,
2004,2012,2013,1,
1988,773,2014,1,
1989,0,2015,2,
1983,1985,2016,0,
1992,1088,2017,0,
1998,979,2018,1,
979,1998,2019,0,
2003,0,2020,2,
2002,1849,2021,0,
1994,1995,2022,0,
1988,0,2023,2,
2023,820,2024,0,
2005,0,2025,2,
2008,1957,2026,0,
2009,0,2027,2,
2010,0,2028,2,
2013,1950,2029,0,
2008,0,2030,2,
2017,0,2031,2,
2018,0,2032,2,
2019,0,2033,2,
1848,2021,2034,1,
2019,1971,2035,0,
2018,1971,2036,0,
2022,0,2037,2,
2024,0,2038,2,
1951,2025,2039,0,
2026,0,2040,2,
2027,1982,2041,0,
1961,2028,2042,0,
2029,0,2043,2,
2029,1732,2044,0,
1993,2030,2045,0,
2031,1995,2046,0,
2000,2028,2047,0,
2034,1973,2048,0,
2035,0,2049,2,
2036,2037,2050,0,
2038,1952,2051,0,
2039,855,2052,0,
2041,2040,2053,0,
2043,1729,2054,1,
2044,0,2055,2,
2042,0,2056,2,
2047,0,2057,2,
2016,2046,2058,0,
2048,0,2059,2,
2051,2006,2060,0,
2052,0,2061,2,
2059,2049,2062,0,
2054,2051,2063,1,
2051,0,2064,2,
2056,1985,2065,0,
2057,2020,2066,0,
2060,0,2067,2,
1981,2061,2068,0,
2054,2064,2069,0,
2065,0,2070,2,
2066,2046,2071,0,
2007,2067,2072,0,
2069,0,2073,2,
1963,2070,2074,0,
2071,0,2075,2,
2072,2068,2076,0,
2055,2073,2077,0,
2072,2061,2078,0,
2050,2075,2079,0,
2076,0,2080,2,
2078,0,2081,2,
1953,2077,2082,1,
2078,1955,2083,0,
2080,1983,2084,0,
2053,2080,2085,0,
2015,2081,2086,0,
2016,2080,2087,0,
2083,0,2088,2,
2084,2053,2089,0,
2085,0,2090,2,
1990,2086,2091,1,
1984,2085,2092,1,
2087,2053,2093,0,
2045,2088,2094,0,
2085,2058,2095,0,
2089,0,2096,2,
1959,2090,2097,0,
2093,0,2098,2,
1999,2094,2099,1,
2095,0,2100,2,
2042,2096,2101,0,
2097,0,2102,2,
2074,2098,2103,0,
1965,2098,2104,0,
2100,2079,2105,0,
2101,0,2106,2,
2102,1983,2107,0,
2105,0,2108,2,
2103,0,2109,2,
2104,2074,2110,0,
2062,2108,2111,0,
2106,1985,2112,0,
1987,2107,2113,1,
1991,2109,2114,0,
2110,0,2115,2,
2099,1928,2116,1,
2116,2111,2117,0,
2099,2117,2118,1,
2092,1934,2119,1,
2119,2111,2120,0,
2092,2120,2121,1,
1986,2112,2122,1,
2113,1937,2123,1,
2123,2111,2124,0,
2113,2124,2125,1,
2111,738,2126,0,
2111,0,2127,2,
2111,763,2128,0,
2014,1975,2129,1,
2129,2111,2130,0,
2014,2130,2131,1,
2063,2043,2132,1,
2132,2111,2133,0,
2063,2133,2134,1,
2082,1956,2135,1,
2135,2111,2136,0,
2082,2136,2137,1,
2091,1931,2138,1,
2138,2111,2139,0,
2091,2139,2140,1,
1994,2114,2141,1,
2046,2115,2142,0,
2001,2111,2143,0,
2111,228,2144,0,
2111,1896,2145,0,
1247,2118,2146,0,
2122,1940,2147,1,
2147,2111,2148,0,
2122,2148,2149,1,
1088,2125,2150,0,
2126,0,2151,2,
2127,670,2152,1,
2128,0,2153,2,
2131,1729,2154,1,
2131,1732,2155,0,
2134,1567,2156,1,
2134,0,2157,2,
2137,1439,2158,1,
2140,1339,2159,1,
1439,2137,2160,0,
2121,1171,2161,1,
1171,2121,2162,0,
2125,1088,2163,1,
2141,1943,2164,1,
2164,2111,2165,0,
2141,2165,2166,1,
1339,2140,2167,0,
2032,2142,2168,1,
2118,1247,2169,1,
2127,1919,2170,0,
2142,0,2171,2,
2143,0,2172,2,
2126,1919,2173,0,
670,2127,2174,0,
2145,0,2175,2,
2174,0,2176,2,
2152,2111,2177,1,
2146,0,2178,2,
2169,0,2179,2,
1013,2149,2180,0,
2150,0,2181,2,
2152,0,2182,2,
2155,0,2183,2,
2158,0,2184,2,
2160,2159,2185,0,
1567,2157,2186,0,
2156,2134,2187,0,
2158,2159,2188,0,
2149,1013,2189,1,
2162,0,2190,2,
2163,0,2191,2,
2160,0,2192,2,
2159,0,2193,2,
2166,979,2194,1,
2167,0,2195,2,
979,2166,2196,0,
2168,1998,2197,1,
2197,2111,2198,0,
2168,2198,2199,1,
2163,2121,2200,0,
2161,2163,2201,0,
2018,2171,2202,0,
1915,2151,2203,0,
2156,0,2204,2,
2173,0,2205,2,
2154,0,2206,2,
2161,0,2207,2,
2180,0,2208,2,
2176,670,2209,1,
2209,738,2210,0,
2176,2210,2211,1,
2177,0,2212,2,
2195,2178,2213,0,
2179,2178,2214,0,
2186,0,2215,2,
2185,0,2216,2,
2187,0,2217,2,
2189,0,2218,2,
2189,2163,2219,0,
2150,2189,2220,0,
2199,0,2221,2,
2194,0,2222,2,
2196,0,2223,2,
2200,1171,2224,0,
2201,0,2225,2,
2202,0,2226,2,
2194,2199,2227,0,
2196,2199,2228,0,
2188,0,2229,2,
2203,0,2230,2,
2155,2204,2231,0,
2206,2205,2232,0,
1885,2212,2233,0,
2181,2208,2234,0,
2211,2151,2235,0,
581,2212,2236,0,
581,2212,2237,1,
2214,0,2238,2,
2183,2215,2239,0,
2213,2216,2240,0,
2215,2156,2241,0,
2188,2217,2242,0,
2218,2208,2243,0,
2220,0,2244,2,
2216,2195,2245,0,
2224,0,2246,2,
2226,2033,2247,0,
2228,0,2248,2,
2231,0,2249,2,
2235,0,2250,2,
2236,0,2251,2,
1915,2235,2252,0,
2240,0,2253,2,
2161,2238,2254,0,
2241,0,2255,2,
2234,2191,2256,0,
2243,0,2257,2,
2244,2208,2258,0,
2246,2225,2259,0,
2001,2247,2260,1,
2245,2229,2261,0,
2249,2215,2262,0,
2234,2246,2263,0,
2233,0,2264,2,
2245,2262,2265,0,
2251,2153,2266,0,
2250,1915,2267,1,
2252,0,2268,2,
2254,2253,2269,0,
2242,2254,2270,0,
2256,0,2271,2,
2259,2234,2272,0,
2263,2178,2273,0,
2227,2257,2274,0,
2260,2172,2275,0,
2261,0,2276,2,
2175,2264,2277,0,
2267,0,2278,2,
2266,0,2279,2,
2267,2266,2280,1,
2269,0,2281,2,
2270,2163,2282,0,
2257,2271,2283,0,
2272,0,2284,2,
2273,0,2285,2,
2266,2230,2286,0,
2275,0,2287,2,
2169,2276,2288,0,
799,2277,2289,0,
2281,2190,2290,0,
2278,2279,2291,0,
2289,0,2292,2,
2283,2194,2293,0,
2274,2284,2294,0,
2287,2248,2295,0,
2286,0,2296,2,
2204,2292,2297,0,
2232,2296,2298,0,
2234,2290,2299,0,
2291,0,2300,2,
2290,0,2301,2,
2294,2285,2302,0,
2288,2294,2303,0,
2297,2298,2304,0,
2268,2300,2305,0,
2298,2292,2306,0,
2219,2301,2307,0,
2163,2301,2308,0,
2302,0,2309,2,
2304,0,2310,2,
2154,2305,2311,1,
2306,0,2312,2,
2307,0,2313,2,
2308,0,2314,2,
2295,2309,2315,0,
2310,2265,2316,0,
2312,2183,2317,0,
2262,2310,2318,0,
2239,2312,2319,0,
2258,2313,2320,0,
2156,2317,2321,1,
2184,2318,2322,1,
2319,0,2323,2,
2318,0,2324,2,
2316,0,2325,2,
2255,2323,2326,0,
2282,2323,2327,0,
2189,2323,2328,0,
2188,2324,2329,0,
2303,2325,2330,0,
2288,2325,2331,0,
2270,2323,2332,0,
2332,0,2333,2,
2326,2158,2334,0,
2327,0,2335,2,
2328,2282,2336,0,
2329,0,2337,2,
2331,0,2338,2,
2330,0,2339,2,
2178,2338,2340,0,
2315,2339,2341,0,
2334,0,2342,2,
2299,2333,2343,0,
2335,2181,2344,0,
2336,0,2345,2,
2245,2337,2346,0,
2290,2333,2347,0,
2341,0,2348,2,
2207,2340,2349,1,
2322,2137,2350,1,
2350,2341,2351,0,
2322,2351,2352,1,
2237,2182,2353,1,
2353,2341,2354,0,
2237,2354,2355,1,
2280,2235,2356,1,
2356,2341,2357,0,
2280,2357,2358,1,
2311,2131,2359,1,
2359,2341,2360,0,
2311,2360,2361,1,
2321,2157,2362,1,
2362,2341,2363,0,
2321,2363,2364,1,
2342,2192,2365,0,
2343,0,2366,2,
2344,2314,2367,0,
2320,2345,2368,0,
2179,2346,2369,1,
2221,2341,2370,0,
2341,228,2371,0,
2191,2347,2372,1,
2364,1439,2373,1,
2372,2125,2374,1,
2374,2341,2375,0,
2372,2375,2376,1,
2349,2121,2377,1,
2377,2341,2378,0,
2349,2378,2379,1,
2348,2127,2380,0,
1339,2352,2381,0,
2369,2118,2382,1,
2382,2341,2383,0,
2369,2383,2384,1,
2348,581,2385,1,
2355,1915,2386,1,
1915,2355,2387,0,
2358,1729,2388,1,
2358,1732,2389,0,
2361,1567,2390,1,
1567,2361,2391,0,
1439,2364,2392,0,
2193,2365,2393,1,
2293,2366,2394,0,
2218,2367,2395,1,
2222,2368,2396,1,
2370,0,2397,2,
1341,2352,2398,1,
2376,1013,2399,1,
1088,2379,2400,0,
2384,1171,2401,1,
1013,2376,2402,0,
2381,0,2403,2,
2111,2385,2404,0,
2387,0,2405,2,
2388,0,2406,2,
2389,0,2407,2,
2389,2390,2408,0,
2390,0,2409,2,
2391,0,2410,2,
2373,0,2411,2,
2373,2390,2412,0,
2391,2373,2413,0,
2392,0,2414,2,
2380,0,2415,2,
2393,2140,2416,1,
2416,2341,2417,0,
2393,2417,2418,1,
2394,0,2419,2,
2395,2149,2420,1,
2420,2341,2421,0,
2395,2421,2422,1,
2396,2166,2423,1,
2423,2341,2424,0,
2396,2424,2425,1,
1341,2398,2426,0,
2379,0,2427,2,
1171,2384,2428,0,
2400,0,2429,2,
2427,1088,2430,1,
2399,0,2431,2,
2428,0,2432,2,
1247,2418,2433,0,
2402,0,2434,2,
2422,979,2435,1,
2401,0,2436,2,
979,2422,2437,0,
2404,2386,2438,0,
2386,2404,2439,1,
2390,2406,2440,0,
2408,0,2441,2,
2412,2406,2442,0,
2413,0,2443,2,
2418,1247,2444,1,
2419,2223,2445,0,
2426,0,2446,2,
2414,2403,2447,0,
2425,0,2448,2,
2403,2398,2449,0,
2389,2412,2450,0,
2444,2446,2451,0,
2449,0,2452,2,
2450,0,2453,2,
2444,2401,2454,0,
2438,0,2455,2,
2441,2410,2456,0,
2414,2443,2457,0,
2221,2445,2458,1,
2437,2425,2459,0,
2432,2429,2460,0,
2430,2429,2461,0,
2447,0,2462,2,
2430,0,2463,2,
2433,0,2464,2,
2435,2425,2465,0,
2437,0,2466,2,
2435,0,2467,2,
2433,2401,2468,0,
2465,2399,2469,0,
2451,2373,2470,0,
2402,2465,2471,0,
2454,2452,2472,0,
2455,2405,2473,0,
2453,2403,2474,0,
2458,2397,2475,0,
2459,0,2476,2,
2460,2434,2477,0,
2451,2462,2478,0,
2461,0,2479,2,
2454,2463,2480,0,
2460,2436,2481,0,
2468,0,2482,2,
2399,2479,2483,0,
2481,0,2484,2,
2473,0,2485,2,
2388,2473,2486,1,
2475,0,2487,2,
2482,2432,2488,0,
2478,0,2489,2,
2469,2479,2490,0,
2471,0,2491,2,
2469,2452,2492,0,
2488,0,2493,2,
2483,0,2494,2,
2406,2485,2495,0,
2440,2485,2496,0,
2442,2485,2497,0,
2487,2476,2498,0,
2488,2429,2499,0,
2492,2480,2500,0,
2483,2484,2501,0,
2489,2464,2502,0,
2498,2341,2503,0,
2494,2434,2504,0,
2497,0,2505,2,
2495,0,2506,2,
2496,0,2507,2,
2498,2491,2508,0,
2463,2493,2509,0,
2460,2502,2510,0,
2499,0,2511,2,
2504,0,2512,2,
2490,2511,2513,0,
2503,0,2514,2,
2506,2407,2515,0,
2456,2507,2516,0,
2457,2505,2517,0,
2505,2453,2518,0,
2509,0,2519,2,
2516,0,2520,2,
2409,2515,2521,1,
2411,2516,2522,1,
2517,2474,2523,0,
2514,2415,2524,0,
2465,2512,2525,0,
2474,2517,2526,0,
2519,2429,2527,0,
2435,2512,2528,0,
2518,2457,2529,0,
2513,0,2530,2,
2470,2520,2531,0,
2508,2530,2532,0,
2526,0,2533,2,
2398,2529,2534,1,
2523,0,2535,2,
2525,0,2536,2,
2500,2533,2537,0,
2472,2533,2538,0,
2535,2452,2539,0,
2531,0,2540,2,
2503,2536,2541,0,
2537,0,2542,2,
2538,0,2543,2,
2510,2540,2544,0,
2444,2539,2545,1,
2502,2540,2546,0,
2463,2538,2547,0,
2541,0,2548,2,
2542,2532,2549,0,
2546,0,2550,2,
2436,2546,2551,1,
2548,2415,2552,0,
2488,2543,2553,0,
2547,0,2554,2,
2544,0,2555,2,
2527,2554,2556,0,
2549,0,2557,2,
2439,2355,2558,1,
2558,2549,2559,0,
2439,2559,2560,1,
2486,2358,2561,1,
2561,2549,2562,0,
2486,2562,2563,1,
2521,2361,2564,1,
2564,2549,2565,0,
2521,2565,2566,1,
2522,2364,2567,1,
2567,2549,2568,0,
2522,2568,2569,1,
2534,2352,2570,1,
2570,2549,2571,0,
2534,2571,2572,1,
2549,2341,2573,0,
2545,2418,2574,1,
2574,2549,2575,0,
2545,2575,2576,1,
2401,2550,2577,0,
2551,2384,2578,1,
2578,2549,2579,0,
2551,2579,2580,1,
2549,228,2581,0,
2549,2448,2582,0,
2501,2555,2583,0,
2430,2553,2584,1,
2431,2556,2585,1,
2584,2379,2586,1,
2586,2549,2587,0,
2584,2587,2588,1,
2572,1247,2589,1,
2576,1171,2590,1,
2583,0,2591,2,
2560,1732,2592,0,
2563,1567,2593,1,
2566,1439,2594,1,
1439,2566,2595,0,
2569,1339,2596,1,
1339,2569,2597,0,
2341,2557,2598,0,
2573,0,2599,2,
2111,2557,2600,0,
2557,2348,2601,0,
1171,2576,2602,0,
2577,0,2603,2,
1088,2580,2604,0,
2580,1088,2605,1,
2563,0,2606,2,
1247,2572,2607,0,
2582,0,2608,2,
1567,2563,2609,0,
2560,1729,2610,1,
2585,2376,2611,1,
2611,2549,2612,0,
2585,2612,2613,1,
2590,2589,2614,0,
2605,0,2615,2,
1013,2588,2616,0,
2593,0,2617,2,
2610,0,2618,2,
2592,0,2619,2,
2609,0,2620,2,
2594,0,2621,2,
2595,0,2622,2,
2596,0,2623,2,
2595,2596,2624,0,
2597,0,2625,2,
2589,0,2626,2,
2598,0,2627,2,
2385,2600,2628,1,
2607,2590,2629,0,
2602,0,2630,2,
2477,2603,2631,0,
2604,0,2632,2,
2601,0,2633,2,
2588,1013,2634,1,
2607,0,2635,2,
2594,2596,2636,0,
2590,0,2637,2,
2591,2434,2638,0,
2613,979,2639,1,
2628,1915,2640,1,
2617,2620,2641,0,
2624,0,2642,2,
2627,2111,2643,1,
2629,0,2644,2,
2597,2614,2645,0,
2631,2503,2646,0,
2624,2614,2647,0,
1915,2628,2648,0,
2616,0,2649,2,
979,2613,2650,0,
2606,2617,2651,0,
2631,0,2652,2,
2615,1096,2653,0,
2634,0,2654,2,
2619,2620,2655,0,
2467,2638,2656,1,
2656,2422,2657,1,
2657,2549,2658,0,
2656,2658,2659,1,
2647,0,2660,2,
2641,0,2661,2,
2625,2642,2662,0,
2643,2573,2663,1,
2640,2524,2664,1,
2630,2644,2665,0,
2645,0,2666,2,
2552,2640,2667,0,
2646,0,2668,2,
2650,0,2669,2,
2648,0,2670,2,
2653,0,2671,2,
2651,0,2672,2,
2648,2618,2673,0,
2528,2652,2674,0,
2639,0,2675,2,
2525,2652,2676,0,
2640,2618,2677,0,
2639,2659,2678,0,
2659,0,2679,2,
2636,2672,2680,0,
2676,0,2681,2,
2677,2415,2682,0,
2662,0,2683,2,
2632,2666,2684,0,
2667,2668,2685,0,
2649,2660,2686,0,
2650,2659,2687,0,
2674,0,2688,2,
2634,2671,2689,0,
2673,0,2690,2,
2614,2680,2691,0,
2655,2690,2692,0,
2614,2683,2693,0,
2684,2660,2694,0,
2589,2683,2695,0,
2665,2684,2696,0,
2685,0,2697,2,
2688,2466,2698,0,
2687,0,2699,2,
2689,0,2700,2,
2503,2681,2701,0,
2701,0,2702,2,
2700,2649,2703,0,
2693,0,2704,2,
2694,2665,2705,0,
2697,2670,2706,0,
2695,0,2707,2,
2686,2696,2708,0,
2448,2698,2709,1,
2706,0,2710,2,
2665,2704,2711,0,
2709,2608,2712,0,
2703,0,2713,2,
2708,0,2714,2,
2707,2635,2715,0,
2682,2702,2716,0,
2678,2713,2717,0,
2716,0,2718,2,
2710,2618,2719,0,
2710,2618,2720,1,
2712,0,2721,2,
2691,2717,2722,0,
2699,2721,2723,0,
2719,0,2724,2,
2717,2714,2725,0,
2692,2718,2726,0,
2726,0,2727,2,
2724,2619,2728,0,
2723,2557,2729,0,
2725,2341,2730,0,
2722,2341,2731,0,
2725,0,2732,2,
2722,2727,2733,0,
2617,2728,2734,1,
2728,0,2735,2,
2661,2727,2736,0,
2680,2727,2737,0,
2691,2727,2738,0,
2729,0,2739,2,
2730,0,2740,2,
2589,2727,2741,0,
2731,2727,2742,0,
2733,0,2743,2,
2593,2735,2744,0,
2736,2594,2745,0,
2737,0,2746,2,
2738,0,2747,2,
2739,2633,2748,0,
2741,2680,2749,0,
2742,0,2750,2,
2743,2732,2751,0,
2711,2747,2752,0,
2744,0,2753,2,
2745,0,2754,2,
2662,2746,2755,0,
2705,2747,2756,0,
2748,0,2757,2,
2749,0,2758,2,
2723,2751,2759,0,
2715,2758,2760,0,
2753,2620,2761,0,
2754,2622,2762,0,
2626,2755,2763,1,
2752,0,2764,2,
2615,2752,2765,1,
2756,0,2766,2,
2757,2740,2767,0,
2679,2759,2768,0,
2763,2572,2769,1,
2769,2759,2770,0,
2763,2770,2771,1,
2765,2580,2772,1,
2772,2759,2773,0,
2765,2773,2774,1,
2759,2549,2775,0,
2759,0,2776,2,
2734,2563,2777,1,
2777,2759,2778,0,
2734,2778,2779,1,
2664,2628,2780,1,
2780,2759,2781,0,
2664,2781,2782,1,
2767,2750,2783,0,
2621,2761,2784,1,
2623,2762,2785,1,
2720,2560,2786,1,
2786,2759,2787,0,
2720,2787,2788,1,
2663,2599,2789,1,
2789,2759,2790,0,
2663,2790,2791,1,
2605,2764,2792,0,
2689,2766,2793,0,
2759,228,2794,0,
2637,2760,2795,1,
2795,2576,2796,1,
2796,2759,2797,0,
2795,2797,2798,1,
2776,2549,2799,0,
2774,1013,2800,1,
1171,2771,2801,0,
2771,1171,2802,1,
2779,1439,2803,1,
2784,2566,2804,1,
2804,2759,2805,0,
2784,2805,2806,1,
2785,2569,2807,1,
2807,2759,2808,0,
2785,2808,2809,1,
2788,1567,2810,1,
2791,1915,2811,1,
1915,2791,2812,0,
2782,1729,2813,1,
2792,0,2814,2,
2573,2776,2815,0,
1439,2779,2816,0,
1013,2774,2817,0,
2775,0,2818,2,
1567,2788,2819,0,
2782,1732,2820,0,
2793,0,2821,2,
2768,0,2822,2,
2783,0,2823,2,
1088,2798,2824,0,
2813,0,2825,2,
2816,0,2826,2,
2819,0,2827,2,
2341,2799,2828,1,
2111,2811,2829,0,
2809,1247,2830,1,
1339,2806,2831,0,
2800,0,2832,2,
2802,0,2833,2,
2820,0,2834,2,
2806,1339,2835,1,
2803,0,2836,2,
2810,0,2837,2,
2798,1088,2838,1,
2811,0,2839,2,
2817,0,2840,2,
2812,0,2841,2,
2801,0,2842,2,
1247,2809,2843,0,
2814,2632,2844,0,
2821,2649,2845,0,
2799,0,2846,2,
2815,0,2847,2,
2824,0,2848,2,
2824,2800,2849,0,
2654,2844,2850,1,
2845,0,2851,2,
2837,2827,2852,0,
2831,0,2853,2,
2830,0,2854,2,
2627,2846,2855,0,
2836,2826,2856,0,
2830,2835,2857,0,
2802,2838,2858,0,
2835,0,2859,2,
2838,0,2860,2,
2811,2825,2861,0,
2832,1018,2862,0,
2833,1174,2863,0,
2831,2830,2864,0,
1915,2825,2865,0,
2843,0,2866,2,
2675,2845,2867,1,
2847,2823,2868,0,
2827,2826,2869,0,
2848,2840,2870,0,
2850,2588,2871,1,
2871,2759,2872,0,
2850,2872,2873,1,
2867,2613,2874,1,
2874,2759,2875,0,
2867,2875,2876,1,
2863,0,2877,2,
2849,0,2878,2,
2852,0,2879,2,
2868,0,2880,2,
2855,0,2881,2,
2856,0,2882,2,
2852,2826,2883,0,
2858,2800,2884,0,
2639,2851,2885,0,
2864,0,2886,2,
2862,0,2887,2,
2866,2842,2888,0,
2865,2791,2889,0,
2829,2880,2890,0,
2873,979,2891,1,
2803,2879,2892,0,
2889,0,2893,2,
2880,2111,2894,1,
2111,2880,2895,0,
2888,2886,2896,0,
2857,2882,2897,0,
2883,0,2898,2,
2881,2811,2899,0,
2838,2877,2900,0,
2878,2840,2901,0,
979,2873,2902,0,
2876,0,2903,2,
2885,0,2904,2,
2866,2886,2905,0,
2902,2876,2906,0,
2897,2898,2907,0,
2900,0,2908,2,
2896,2870,2909,0,
2894,2881,2910,0,
2892,0,2911,2,
2893,2834,2912,0,
2895,0,2913,2,
2896,0,2914,2,
2899,2894,2915,0,
2890,0,2916,2,
2902,0,2917,2,
2891,0,2918,2,
2904,2669,2919,0,
2894,0,2920,2,
2890,2825,2921,0,
2891,2876,2922,0,
2905,0,2923,2,
2869,2893,2924,0,
2870,2908,2925,0,
2909,0,2926,2,
2911,2826,2927,0,
2910,0,2928,2,
2827,2912,2929,0,
2800,2914,2930,0,
2915,0,2931,2,
2884,2907,2932,0,
2922,2887,2933,0,
2802,2923,2934,0,
2900,2914,2935,0,
2921,0,2936,2,
2861,2910,2937,0,
2906,0,2938,2,
2679,2919,2939,1,
2855,2920,2940,1,
2925,0,2941,2,
2939,2822,2942,0,
2924,2936,2943,0,
2937,0,2944,2,
2935,0,2945,2,
2927,0,2946,2,
2913,2928,2947,0,
2930,2900,2948,0,
2841,2931,2949,0,
2933,2858,2950,0,
2934,0,2951,2,
2933,2941,2952,0,
2834,2944,2953,0,
2835,2946,2954,0,
2839,2947,2955,1,
2948,0,2956,2,
2949,2916,2957,0,
2951,2842,2958,0,
2945,2848,2959,0,
2944,2936,2960,0,
2907,2950,2961,0,
2942,0,2962,2,
2952,2926,2963,0,
2960,2912,2964,0,
2929,2960,2965,0,
2901,2956,2966,0,
2813,2957,2967,1,
2962,2938,2968,0,
2953,2943,2969,0,
2963,0,2970,2,
2969,0,2971,2,
2837,2964,2972,1,
2965,0,2973,2,
2964,0,2974,2,
2968,2970,2975,0,
2971,2961,2976,0,
2954,2971,2977,0,
2932,2971,2978,0,
2892,2973,2979,0,
2802,2971,2980,0,
2858,2971,2981,0,
2907,2971,2982,0,
2810,2974,2983,0,
2983,0,2984,2,
2976,0,2985,2,
2977,0,2986,2,
2978,0,2987,2,
2979,0,2988,2,
2980,2907,2989,0,
2981,2907,2990,0,
2982,0,2991,2,
2975,2985,2992,0,
2986,2853,2993,0,
2966,2987,2994,0,
2984,2827,2995,0,
2988,2826,2996,0,
2989,0,2997,2,
2990,0,2998,2,
2905,2991,2999,0,
2940,2880,3000,1,
3000,2992,3001,0,
2940,3001,3002,1,
2992,0,3003,2,
2992,2759,3004,0,
2967,2782,3005,1,
3005,2992,3006,0,
2967,3006,3007,1,
2854,2993,3008,1,
2833,2999,3009,1,
2972,2788,3010,1,
3010,2992,3011,0,
2972,3011,3012,1,
2955,2791,3013,1,
3013,2992,3014,0,
2955,3014,3015,1,
2994,0,3016,2,
2859,2996,3017,1,
2836,2995,3018,1,
2903,2992,3019,0,
2918,2994,3020,1,
2992,228,3021,0,
2958,2997,3022,0,
2959,2998,3023,0,
3002,1915,3024,0,
3003,2776,3025,0,
1919,3002,3026,1,
2549,3003,3027,1,
3027,2759,3028,0,
2549,3028,3029,1,
3015,1732,3030,0,
2832,3023,3031,1,
2828,3003,3032,0,
3004,0,3033,2,
2759,3003,3034,0,
3008,2809,3035,1,
3035,2992,3036,0,
3008,3036,3037,1,
3009,2771,3038,1,
3038,2992,3039,0,
3009,3039,3040,1,
3012,1439,3041,1,
3015,1729,3042,1,
2891,3016,3043,0,
3007,1567,3044,1,
3018,2779,3045,1,
3045,2992,3046,0,
3018,3046,3047,1,
3017,2806,3048,1,
3048,2992,3049,0,
3017,3049,3050,1,
3019,0,3051,2,
3020,2873,3052,1,
3052,2992,3053,0,
3020,3053,3054,1,
1439,3012,3055,0,
2775,3003,3056,0,
2549,3003,3057,0,
1567,3007,3058,0,
2860,3022,3059,1,
3024,0,3060,2,
1339,3047,3061,0,
3031,2774,3062,1,
3062,2992,3063,0,
3031,3063,3064,1,
2818,3032,3065,1,
3026,0,3066,2,
3057,0,3067,2,
3047,1339,3068,1,
3044,0,3069,2,
3054,0,3070,2,
2549,3033,3071,0,
3034,0,3072,2,
3033,2549,3073,1,
3025,0,3074,2,
1171,3037,3075,0,
3040,1088,3076,1,
3058,0,3077,2,
3059,2798,3078,1,
3078,2992,3079,0,
3059,3079,3080,1,
1088,3040,3081,0,
3041,0,3082,2,
3042,0,3083,2,
3043,0,3084,2,
3044,3015,3085,0,
3050,1247,3086,1,
3037,1171,3087,1,
979,3054,3088,0,
3030,0,3089,2,
3055,0,3090,2,
1247,3050,3091,0,
3056,0,3092,2,
3060,3077,3093,0,
979,3064,3094,0,
3087,0,3095,2,
3081,0,3096,2,
3075,0,3097,2,
3087,3086,3098,0,
3061,0,3099,2,
3091,0,3100,2,
3071,0,3101,2,
3073,3034,3102,1,
3076,0,3103,2,
3080,1013,3104,1,
3064,979,3105,1,
3084,2917,3106,0,
3085,0,3107,2,
3065,2111,3108,1,
3089,3077,3109,0,
3041,3068,3110,0,
3088,3064,3111,0,
2111,3065,3112,0,
3042,3089,3113,0,
3086,0,3114,2,
3068,0,3115,2,
3044,3083,3116,0,
3055,3068,3117,0,
3067,2776,3118,0,
1013,3080,3119,0,
3108,3066,3120,0,
3099,3100,3121,0,
3117,0,3122,2,
3112,3066,3123,0,
3101,3072,3124,0,
3104,0,3125,2,
3119,0,3126,2,
3105,0,3127,2,
2903,3106,3128,1,
3110,3098,3129,0,
3103,1096,3130,0,
3105,3054,3131,0,
2341,3108,3132,0,
3112,0,3133,2,
3113,0,3134,2,
3111,0,3135,2,
3114,1254,3136,0,
3108,0,3137,2,
3118,0,3138,2,
3094,0,3139,2,
3116,0,3140,2,
3097,3096,3141,0,
3141,3126,3142,0,
3123,0,3143,2,
3092,3138,3144,0,
3140,3077,3145,0,
3128,3051,3146,0,
3130,0,3147,2,
3129,3131,3148,0,
3099,3122,3149,0,
3136,0,3150,2,
3124,0,3151,2,
3121,3122,3152,0,
3029,3120,3153,0,
3132,3066,3154,0,
3093,3143,3155,0,
3087,3150,3156,0,
3152,0,3157,2,
3144,0,3158,2,
3151,3108,3159,0,
3143,3060,3160,0,
3145,3107,3161,0,
3146,0,3162,2,
3104,3147,3163,0,
3149,0,3164,2,
3162,3135,3165,0,
3158,2341,3166,1,
3161,0,3167,2,
3132,3158,3168,0,
2341,3158,3169,0,
3086,3164,3170,0,
3156,3157,3171,0,
3154,3158,3172,0,
3163,0,3173,2,
3171,0,3174,2,
3165,3142,3175,0,
3041,3167,3176,0,
3170,0,3177,2,
3166,0,3178,2,
3172,0,3179,2,
3173,3126,3180,0,
3159,3166,3181,0,
3166,3151,3182,0,
3169,0,3183,2,
3168,0,3184,2,
3166,3153,3185,0,
3089,3179,3186,0,
3178,3124,3187,1,
3176,3068,3188,0,
3174,3097,3189,0,
3185,0,3190,2,
3109,3179,3191,0,
3180,0,3192,2,
3181,0,3193,2,
3182,0,3194,2,
3175,3174,3195,0,
3177,3100,3196,0,
3155,3190,3197,0,
3195,0,3198,2,
3160,3190,3199,0,
3163,3188,3200,0,
3167,3192,3201,0,
3131,3192,3202,0,
3189,3096,3203,0,
3193,3133,3204,0,
3183,3194,3205,0,
3197,3186,3206,0,
3199,3179,3207,0,
3199,3186,3208,0,
3191,3199,3209,0,
3201,3148,3210,0,
3202,0,3211,2,
3203,0,3212,2,
3204,3184,3213,0,
3137,3205,3214,1,
3206,0,3215,2,
3026,3213,3216,1,
3207,0,3217,2,
3208,0,3218,2,
3209,0,3219,2,
3163,3212,3220,0,
3165,3211,3221,0,
3215,3188,3222,0,
3221,0,3223,2,
3086,3215,3224,0,
3098,3215,3225,0,
3217,3083,3226,1,
3176,3215,3227,0,
3134,3218,3228,0,
3210,3219,3229,0,
3217,3083,3230,0,
3220,0,3231,2,
3222,0,3232,2,
3224,3188,3233,0,
3229,0,3234,2,
3225,3188,3235,0,
3200,3225,3236,0,
3231,3126,3237,0,
3227,0,3238,2,
3228,3044,3239,0,
3230,0,3240,2,
3223,3198,3241,0,
3149,3232,3242,0,
3239,0,3243,2,
3241,0,3244,2,
3240,3089,3245,0,
3235,0,3246,2,
3236,0,3247,2,
3238,3090,3248,0,
3233,0,3249,2,
3114,3242,3250,1,
3234,3244,3251,0,
3196,3249,3252,0,
3069,3245,3253,1,
3189,3246,3254,0,
3243,3077,3255,0,
3237,3247,3256,0,
3115,3248,3257,1,
3250,3050,3258,1,
3258,3251,3259,0,
3250,3259,3260,1,
3251,0,3261,2,
3226,3015,3262,1,
3262,3251,3263,0,
3226,3263,3264,1,
3253,3007,3265,1,
3265,3251,3266,0,
3253,3266,3267,1,
3214,3065,3268,1,
3268,3251,3269,0,
3214,3269,3270,1,
3216,3002,3271,1,
3271,3251,3272,0,
3216,3272,3273,1,
3102,3033,3274,1,
3274,3251,3275,0,
3102,3275,3276,1,
3187,3158,3277,1,
3277,3251,3278,0,
3187,3278,3279,1,
3103,3254,3280,1,
3254,0,3281,2,
3082,3255,3282,1,
3127,3256,3283,1,
3251,228,3284,0,
3256,0,3285,2,
3070,3251,3286,0,
3257,3047,3287,1,
3287,3251,3288,0,
3257,3288,3289,1,
3251,2992,3290,0,
3095,3252,3291,1,
1171,3260,3292,0,
2992,3261,3293,0,
3290,0,3294,2,
3267,1439,3295,1,
1567,3264,3296,0,
2759,3261,3297,0,
3261,3003,3298,0,
3283,3064,3299,1,
3299,3251,3300,0,
3283,3300,3301,1,
3270,1915,3302,1,
1915,3270,3303,0,
3273,1729,3304,1,
3279,2111,3305,1,
3276,2341,3306,1,
2341,3276,3307,0,
2111,3279,3308,0,
3289,1247,3309,1,
3260,1171,3310,1,
3291,3037,3311,1,
3311,3251,3312,0,
3291,3312,3313,1,
3280,3040,3314,1,
3314,3251,3315,0,
3280,3315,3316,1,
3076,3281,3317,0,
3282,3012,3318,1,
3318,3251,3319,0,
3282,3319,3320,1,
3264,1567,3321,1,
3273,1732,3322,0,
3004,3261,3323,0,
3286,0,3324,2,
1439,3267,3325,0,
3105,3285,3326,0,
1247,3289,3327,0,
3302,0,3328,2,
3292,0,3329,2,
3303,0,3330,2,
3327,0,3331,2,
3322,0,3332,2,
2759,3294,3333,0,
3293,0,3334,2,
3306,3305,3335,0,
3294,3074,3336,0,
3307,3305,3337,0,
3308,0,3338,2,
2549,3306,3339,0,
3310,0,3340,2,
3307,0,3341,2,
3306,0,3342,2,
3313,1088,3343,1,
3305,0,3344,2,
3316,1013,3345,1,
3317,0,3346,2,
3320,1339,3347,1,
1013,3316,3348,0,
1339,3320,3349,0,
3321,0,3350,2,
3301,0,3351,2,
3294,2759,3352,1,
3309,0,3353,2,
3304,0,3354,2,
3295,3264,3355,0,
3325,0,3356,2,
3297,0,3357,2,
1088,3313,3358,0,
3295,0,3359,2,
3296,0,3360,2,
3323,0,3361,2,
3326,0,3362,2,
3298,0,3363,2,
3321,3295,3364,0,
3329,3331,3365,0,
3355,1567,3366,0,
3358,0,3367,2,
3357,3003,3368,0,
3328,1919,3369,0,
3362,3139,3370,0,
3330,3332,3371,0,
3340,1174,3372,0,
3333,0,3373,2,
3336,3335,3374,0,
3337,0,3375,2,
3347,3309,3376,0,
3346,3096,3377,0,
3345,0,3378,2,
3348,0,3379,2,
3349,3309,3380,0,
3322,3364,3381,0,
3349,0,3382,2,
3343,0,3383,2,
3364,3354,3384,0,
3339,3305,3385,0,
3352,3293,3386,1,
3365,3367,3387,0,
3369,0,3388,2,
3383,3367,3389,0,
3380,0,3390,2,
3373,3334,3391,0,
3375,3338,3392,0,
3372,0,3393,2,
3125,3377,3394,1,
3381,3376,3395,0,
3381,0,3396,2,
3368,0,3397,2,
3366,0,3398,2,
3372,3367,3399,0,
3070,3370,3400,1,
3387,3390,3401,0,
3354,3388,3402,0,
3361,3397,3403,0,
3356,3398,3404,0,
3384,3388,3405,0,
3399,0,3406,2,
3391,0,3407,2,
3343,3393,3408,0,
3394,3080,3409,1,
3409,3251,3410,0,
3394,3410,3411,1,
3390,3331,3412,0,
3395,0,3413,2,
3389,0,3414,2,
3400,3324,3415,0,
3402,0,3416,2,
3415,0,3417,2,
979,3411,3418,0,
3371,3404,3419,0,
3345,3414,3420,0,
3403,0,3421,2,
3407,3306,3422,0,
3412,3329,3423,0,
3411,979,3424,1,
3408,0,3425,2,
3405,0,3426,2,
3404,0,3427,2,
3405,3376,3428,0,
3385,3421,3429,0,
3421,2549,3430,1,
2549,3421,3431,0,
3339,3421,3432,0,
3424,0,3433,2,
3418,0,3434,2,
3416,3332,3435,0,
3425,3367,3436,0,
3376,3427,3437,0,
3420,3406,3438,0,
3418,3301,3439,0,
3428,0,3440,2,
3424,3301,3441,0,
3426,3396,3442,0,
3401,3440,3443,0,
3439,0,3444,2,
3438,3441,3445,0,
3429,0,3446,2,
3374,3430,3447,0,
3430,3407,3448,0,
3422,3430,3449,0,
3431,0,3450,2,
3432,0,3451,2,
3404,3442,3452,0,
3430,0,3453,2,
3436,0,3454,2,
3435,0,3455,2,
3348,3441,3456,0,
3437,0,3457,2,
3452,0,3458,2,
3419,3446,3459,0,
3321,3455,3460,0,
3447,0,3461,2,
3448,0,3462,2,
3449,0,3463,2,
3453,3391,3464,1,
3330,3446,3465,0,
3456,0,3466,2,
3417,3444,3467,0,
3413,3457,3468,0,
3345,3454,3469,0,
3443,3468,3470,0,
3467,3466,3471,0,
3392,3461,3472,0,
3376,3458,3473,0,
3463,3341,3474,0,
3450,3462,3475,0,
3465,3332,3476,0,
3470,0,3477,2,
3476,0,3478,2,
3472,3446,3479,0,
3473,0,3480,2,
3472,3459,3481,0,
3474,3451,3482,0,
3342,3475,3483,1,
3465,3472,3484,0,
3401,3472,3485,0,
3472,0,3486,2,
3460,3486,3487,0,
3328,3479,3488,1,
3479,0,3489,2,
3423,3480,3490,0,
3481,3423,3491,0,
3344,3482,3492,1,
3481,0,3493,2,
3412,3480,3494,0,
3481,3412,3495,0,
3484,0,3496,2,
3485,3459,3497,0,
3460,3478,3498,0,
3497,0,3499,2,
3498,0,3500,2,
3302,3489,3501,0,
3490,0,3502,2,
3491,0,3503,2,
3493,3458,3504,0,
3494,0,3505,2,
3473,3493,3506,0,
3495,0,3507,2,
3402,3496,3508,0,
3487,0,3509,2,
3477,3499,3510,0,
3509,3360,3511,0,
3501,0,3512,2,
3408,3502,3513,0,
3504,3347,3514,1,
3310,3505,3515,0,
3506,0,3516,2,
3504,3347,3517,0,
3508,0,3518,2,
3510,3445,3519,0,
3517,0,3520,2,
3512,3330,3521,0,
3513,3503,3522,0,
3510,3469,3523,0,
3518,3332,3524,0,
3412,3516,3525,0,
3515,3507,3526,0,
3511,3500,3527,0,
3519,0,3528,2,
3304,3521,3529,1,
3522,0,3530,2,
3523,0,3531,2,
3350,3524,3532,1,
3359,3527,3533,1,
3520,3382,3534,0,
3340,3525,3535,1,
3526,0,3536,2,
3471,3528,3537,0,
3530,3367,3538,0,
3531,3379,3539,0,
3536,3329,3540,0,
3353,3534,3541,1,
3533,3267,3542,1,
3542,3537,3543,0,
3533,3543,3544,1,
3537,0,3545,2,
3386,3294,3546,1,
3546,3537,3547,0,
3386,3547,3548,1,
3541,3289,3549,1,
3549,3537,3550,0,
3541,3550,3551,1,
3532,3264,3552,1,
3552,3537,3553,0,
3532,3553,3554,1,
3514,3320,3555,1,
3555,3537,3556,0,
3514,3556,3557,1,
3537,3251,3558,0,
3488,3270,3559,1,
3559,3537,3560,0,
3488,3560,3561,1,
3529,3273,3562,1,
3562,3537,3563,0,
3529,3563,3564,1,
3535,3260,3565,1,
3565,3537,3566,0,
3535,3566,3567,1,
3483,3276,3568,1,
3568,3537,3569,0,
3483,3569,3570,1,
3492,3279,3571,1,
3571,3537,3572,0,
3492,3572,3573,1,
3378,3538,3574,1,
3539,0,3575,2,
3433,3539,3576,1,
3464,3421,3577,1,
3577,3537,3578,0,
3464,3578,3579,1,
3351,3537,3580,0,
3537,228,3581,0,
3383,3540,3582,1,
1339,3544,3583,0,
3548,2549,3584,1,
3579,2341,3585,1,
3554,1439,3586,1,
3544,1339,3587,1,
1171,3551,3588,0,
2341,3579,3589,0,
3558,0,3590,2,
3251,3545,3591,0,
3290,3545,3592,0,
3561,1729,3593,1,
3561,1732,3594,0,
3564,1567,3595,1,
3545,3261,3596,0,
3567,1088,3597,1,
3570,2111,3598,1,
3582,3313,3599,1,
3599,3537,3600,0,
3582,3600,3601,1,
3573,1915,3602,1,
1088,3567,3603,0,
1915,3573,3604,0,
3574,3316,3605,1,
3605,3537,3606,0,
3574,3606,3607,1,
1567,3564,3608,0,
3557,1247,3609,1,
3424,3575,3610,0,
2549,3548,3611,0,
3576,3411,3612,1,
3612,3537,3613,0,
3576,3613,3614,1,
3551,1171,3615,1,
3580,0,3616,2,
1439,3554,3617,0,
1247,3557,3618,0,
2111,3570,3619,0,
2992,3545,3620,0,
3583,0,3621,2,
2759,3584,3622,0,
3619,0,3623,2,
3604,0,3624,2,
3617,3587,3625,0,
3584,0,3626,2,
3592,0,3627,2,
3620,0,3628,2,
3618,0,3629,2,
3590,2992,3630,1,
3611,3585,3631,0,
2992,3590,3632,0,
3591,0,3633,2,
3593,0,3634,2,
3594,0,3635,2,
3595,0,3636,2,
3588,0,3637,2,
3597,0,3638,2,
3601,1013,3639,1,
3598,0,3640,2,
3595,3602,3641,0,
1013,3601,3642,0,
3603,0,3643,2,
3594,3595,3644,0,
3596,0,3645,2,
3608,0,3646,2,
3607,979,3647,1,
3609,0,3648,2,
3610,0,3649,2,
979,3607,3650,0,
3614,0,3651,2,
3611,0,3652,2,
3586,3587,3653,0,
3617,0,3654,2,
3602,0,3655,2,
3585,0,3656,2,
3615,0,3657,2,
3587,0,3658,2,
3584,3585,3659,0,
3589,0,3660,2,
3590,3363,3661,0,
3621,3629,3662,0,
3622,3585,3663,0,
3661,3659,3664,0,
3625,0,3665,2,
3630,3591,3666,1,
3647,3614,3667,0,
3632,0,3668,2,
3597,3639,3669,0,
3640,2127,3670,0,
3603,3639,3671,0,
3641,3634,3672,0,
3634,3595,3673,0,
3642,0,3674,2,
3644,0,3675,2,
3639,0,3676,2,
3647,0,3677,2,
3648,1254,3678,0,
3649,3434,3679,0,
3650,0,3680,2,
3650,3614,3681,0,
3631,0,3682,2,
3623,3624,3683,0,
3628,3261,3684,0,
3662,3665,3685,0,
3682,3660,3686,0,
3684,0,3687,2,
3668,3633,3688,0,
3670,0,3689,2,
3671,0,3690,2,
3604,3673,3691,0,
3675,3646,3692,0,
3665,3621,3693,0,
3678,0,3694,2,
3351,3679,3695,1,
3681,0,3696,2,
3685,3637,3697,0,
3672,3689,3698,0,
3691,0,3699,2,
3690,3674,3700,0,
3688,0,3701,2,
3615,3694,3702,0,
3695,3616,3703,0,
3602,3689,3704,0,
3683,3692,3705,0,
3627,3687,3706,0,
3706,0,3707,2,
3698,0,3708,2,
3701,3584,3709,0,
3700,0,3710,2,
3703,0,3711,2,
3704,0,3712,2,
3702,0,3713,2,
3663,3707,3714,0,
3707,2759,3715,1,
2759,3707,3716,0,
3712,3624,3717,0,
3713,3637,3718,0,
3699,3708,3719,0,
3622,3707,3720,0,
3667,3710,3721,0,
3715,3701,3722,0,
3715,0,3723,2,
3714,0,3724,2,
3717,0,3725,2,
3718,0,3726,2,
3719,3692,3727,0,
3709,3715,3728,0,
3720,0,3729,2,
3721,0,3730,2,
3664,3715,3731,0,
3716,0,3732,2,
3731,0,3733,2,
3669,3726,3734,0,
3723,3688,3735,1,
3623,3724,3736,0,
3725,3634,3737,0,
3597,3726,3738,0,
3705,3724,3739,0,
3727,0,3740,2,
3728,0,3741,2,
3696,3730,3742,0,
3722,0,3743,2,
3732,3743,3744,0,
3686,3733,3745,0,
3741,3652,3746,0,
3653,3740,3747,0,
3667,3734,3748,0,
3742,3711,3749,0,
3697,3745,3750,0,
3626,3744,3751,1,
3747,0,3752,2,
3745,3739,3753,0,
3745,3624,3754,0,
3745,3724,3755,0,
3736,3745,3756,0,
3746,3729,3757,0,
3750,3739,3758,0,
3697,3752,3759,0,
3754,3736,3760,0,
3753,0,3761,2,
3693,3752,3762,0,
3685,3752,3763,0,
3753,3693,3764,0,
3685,3753,3765,0,
3756,0,3766,2,
3755,0,3767,2,
3656,3757,3768,1,
3640,3755,3769,1,
3758,0,3770,2,
3759,0,3771,2,
3760,0,3772,2,
3761,3740,3773,0,
3762,0,3774,2,
3763,0,3775,2,
3764,0,3776,2,
3765,0,3777,2,
3747,3761,3778,0,
3598,3767,3779,0,
3704,3766,3780,0,
3748,3770,3781,0,
3780,0,3782,2,
3778,0,3783,2,
3779,0,3784,2,
3737,3772,3785,0,
3770,3771,3786,0,
3773,3586,3787,0,
3609,3774,3788,0,
3702,3775,3789,0,
3773,3586,3790,1,
3781,3771,3791,0,
3782,3624,3792,0,
3785,0,3793,2,
3738,3786,3794,0,
3786,3734,3795,0,
3784,3623,3796,0,
3787,0,3797,2,
3789,3777,3798,0,
3788,3776,3799,0,
3693,3783,3800,0,
3791,0,3801,2,
3648,3800,3802,1,
3798,0,3803,2,
3799,0,3804,2,
3593,3792,3805,1,
3635,3793,3806,0,
3794,0,3807,2,
3795,0,3808,2,
3655,3796,3809,1,
3797,3654,3810,0,
3749,3801,3811,0,
3804,3629,3812,0,
3636,3806,3813,1,
3803,3637,3814,0,
3807,3643,3815,0,
3700,3808,3816,0,
3658,3810,3817,1,
3811,0,3818,2,
3751,3548,3819,1,
3819,3811,3820,0,
3751,3820,3821,1,
3817,3544,3822,1,
3822,3811,3823,0,
3817,3823,3824,1,
3790,3554,3825,1,
3825,3811,3826,0,
3790,3826,3827,1,
3769,3570,3828,1,
3828,3811,3829,0,
3769,3829,3830,1,
3768,3579,3831,1,
3831,3811,3832,0,
3768,3832,3833,1,
3809,3573,3834,1,
3834,3811,3835,0,
3809,3835,3836,1,
3811,3537,3837,0,
3657,3812,3838,1,
3666,3590,3839,1,
3839,3811,3840,0,
3666,3840,3841,1,
3735,3707,3842,1,
3842,3811,3843,0,
3735,3843,3844,1,
3805,3561,3845,1,
3845,3811,3846,0,
3805,3846,3847,1,
3813,3564,3848,1,
3848,3811,3849,0,
3813,3849,3850,1,
3802,3557,3851,1,
3851,3811,3852,0,
3802,3852,3853,1,
3638,3814,3854,1,
3676,3815,3855,1,
3816,0,3856,2,
3677,3816,3857,1,
3651,3811,3858,0,
3811,228,3859,0,
3537,3818,3860,0,
3818,3545,3861,0,
3821,2341,3862,1,
3837,0,3863,2,
3838,3551,3864,1,
3864,3811,3865,0,
3838,3865,3866,1,
2111,3833,3867,0,
1247,3824,3868,0,
3824,1247,3869,1,
3853,0,3870,2,
3833,2111,3871,1,
3251,3818,3872,0,
1339,3827,3873,0,
3830,1915,3874,1,
3841,2759,3875,1,
2759,3841,3876,0,
3844,2549,3877,1,
3847,1567,3878,1,
1567,3847,3879,0,
3850,1439,3880,1,
3853,1171,3881,0,
3854,3567,3882,1,
3882,3811,3883,0,
3854,3883,3884,1,
2549,3844,3885,0,
3855,3601,3886,1,
3886,3811,3887,0,
3855,3887,3888,1,
3857,3607,3889,1,
3889,3811,3890,0,
3857,3890,3891,1,
3647,3856,3892,0,
3827,1339,3893,1,
2341,3821,3894,0,
1915,3830,3895,0,
1439,3850,3896,0,
3858,0,3897,2,
3558,3818,3898,0,
3836,1729,3899,1,
3836,1732,3900,0,
3251,3863,3901,0,
3860,0,3902,2,
3861,0,3903,2,
3862,0,3904,2,
3867,0,3905,2,
3866,1088,3906,1,
979,3888,3907,0,
3873,0,3908,2,
3888,979,3909,1,
3899,0,3910,2,
3874,0,3911,2,
3868,0,3912,2,
3875,0,3913,2,
2992,3875,3914,0,
3876,0,3915,2,
3877,0,3916,2,
3879,0,3917,2,
3880,0,3918,2,
1088,3866,3919,0,
3869,0,3920,2,
3884,1013,3921,1,
3881,0,3922,2,
3863,3645,3923,0,
3875,3877,3924,0,
1013,3884,3925,0,
3876,3877,3926,0,
3885,0,3927,2,
3879,3880,3928,0,
3892,0,3929,2,
3894,0,3930,2,
3893,0,3931,2,
3871,0,3932,2,
3863,3251,3933,1,
3895,0,3934,2,
3896,0,3935,2,
3891,0,3936,2,
3898,0,3937,2,
3872,0,3938,2,
3870,1171,3939,1,
3900,0,3940,2,
3878,3880,3941,0,
3901,0,3942,2,
2348,3904,3943,0,
3930,3905,3944,0,
3938,3545,3945,0,
3931,1341,3946,0,
3928,0,3947,2,
3830,3910,3948,0,
3933,3860,3949,1,
3874,3910,3950,0,
3939,0,3951,2,
3881,3906,3952,0,
3919,0,3953,2,
3921,0,3954,2,
3906,0,3955,2,
3923,3924,3956,0,
3908,3935,3957,0,
3926,0,3958,2,
3925,0,3959,2,
3909,3891,3960,0,
3929,3680,3961,0,
3909,0,3962,2,
3907,3891,3963,0,
3907,0,3964,2,
3914,3877,3965,0,
3942,3902,3966,0,
3963,0,3967,2,
3943,0,3968,2,
3946,0,3969,2,
3947,3935,3970,0,
3948,1915,3971,0,
3867,3950,3972,0,
3951,3906,3973,0,
3952,0,3974,2,
3957,3912,3975,0,
3958,3927,3976,0,
3651,3961,3977,1,
3945,0,3978,2,
3871,3968,3979,0,
3937,3978,3980,0,
3869,3969,3981,0,
3975,3947,3982,0,
3970,3908,3983,0,
3972,0,3984,2,
3966,0,3985,2,
3974,3953,3986,0,
3977,3897,3987,0,
3971,0,3988,2,
3980,0,3989,2,
3987,0,3990,2,
3979,3950,3991,0,
3985,3875,3992,0,
3981,0,3993,2,
3986,0,3994,2,
3988,3940,3995,0,
3979,0,3996,2,
3989,2992,3997,1,
3991,0,3998,2,
2992,3989,3999,0,
3914,3989,4000,0,
3993,3912,4001,0,
3921,3994,4002,0,
3944,3995,4003,0,
3990,3967,4004,0,
3996,3905,4005,0,
3965,3989,4006,0,
3997,0,4007,2,
3984,3998,4008,0,
3997,3985,4009,0,
3999,0,4010,2,
3992,3997,4011,0,
4000,0,4012,2,
4001,0,4013,2,
3956,3997,4014,0,
4002,0,4015,2,
4006,0,4016,2,
4005,0,4017,2,
4007,3966,4018,1,
4008,3995,4019,0,
4009,0,4020,2,
4011,0,4021,2,
3973,4013,4022,0,
3951,4013,4023,0,
4014,0,4024,2,
4015,3959,4025,0,
3930,4016,4026,0,
4003,4016,4027,0,
4019,0,4028,2,
3976,4024,4029,0,
4010,4020,4030,0,
4021,3915,4031,0,
4022,3921,4032,0,
4025,0,4033,2,
4026,3905,4034,0,
3941,4028,4035,0,
3913,4030,4036,1,
4031,4012,4037,0,
4029,3982,4038,0,
3960,4033,4039,0,
4034,4029,4040,0,
4027,4029,4041,0,
4029,4016,4042,0,
3960,4032,4043,0,
4026,4029,4044,0,
4035,0,4045,2,
4041,0,4046,2,
3904,4042,4047,1,
4044,0,4048,2,
3916,4037,4049,1,
4041,3970,4050,0,
4038,4027,4051,0,
4039,0,4052,2,
4041,3983,4053,0,
4040,0,4054,2,
4042,0,4055,2,
3983,4045,4056,0,
4017,4054,4057,0,
4035,4046,4058,0,
4004,4052,4059,0,
4046,4028,4060,0,
3982,4045,4061,0,
3970,4045,4062,0,
3862,4055,4063,0,
3979,4048,4064,0,
4050,0,4065,2,
4051,0,4066,2,
4053,0,4067,2,
4056,0,4068,2,
4059,3811,4069,0,
4058,0,4070,2,
4060,3878,4071,1,
4060,3878,4072,0,
4061,0,4073,2,
4062,0,4074,2,
4057,3874,4075,0,
4064,0,4076,2,
4063,0,4077,2,
4043,4066,4078,0,
3981,4068,4079,0,
4072,0,4080,2,
4066,4073,4081,0,
3893,4074,4082,0,
3970,4070,4083,0,
4077,3930,4084,0,
4075,0,4085,2,
4076,3905,4086,0,
4078,4073,4087,0,
4087,0,4088,2,
4079,4067,4089,0,
3911,4086,4090,1,
4080,3917,4091,0,
4081,4023,4092,0,
4022,4081,4093,0,
4032,4081,4094,0,
4082,4065,4095,0,
3932,4084,4096,1,
3934,4085,4097,0,
3931,4083,4098,1,
4059,4088,4099,0,
4069,4088,4100,0,
4089,0,4101,2,
4095,0,4102,2,
3899,4097,4103,1,
3918,4091,4104,1,
4092,0,4105,2,
4093,0,4106,2,
4094,0,4107,2,
4018,3989,4108,1,
4108,4099,4109,0,
4018,4109,4110,1,
3949,3863,4111,1,
4111,4099,4112,0,
3949,4112,4113,1,
4100,0,4114,2,
4101,3912,4115,0,
4098,3827,4116,1,
4116,4099,4117,0,
4098,4117,4118,1,
4090,3830,4119,1,
4119,4099,4120,0,
4090,4120,4121,1,
4096,3833,4122,1,
4122,4099,4123,0,
4096,4123,4124,1,
4099,0,4125,2,
4099,3811,4126,0,
4036,3841,4127,1,
4127,4099,4128,0,
4036,4128,4129,1,
4047,3821,4130,1,
4130,4099,4131,0,
4047,4131,4132,1,
4049,3844,4133,1,
4133,4099,4134,0,
4049,4134,4135,1,
4103,3836,4136,1,
4136,4099,4137,0,
4103,4137,4138,1,
4071,3847,4139,1,
4139,4099,4140,0,
4071,4140,4141,1,
4104,3850,4142,1,
4142,4099,4143,0,
4104,4143,4144,1,
4102,3908,4145,0,
4105,3922,4146,0,
3986,4106,4147,0,
4025,4107,4148,0,
4099,228,4149,0,
3936,4099,4150,0,
4110,2759,4151,1,
4113,2992,4152,1,
4114,3903,4153,0,
2992,4113,4154,0,
2759,4110,4155,0,
4115,3951,4156,1,
3537,4125,4157,0,
4150,0,4158,2,
1339,4144,4159,0,
4148,0,4160,2,
4126,0,4161,2,
3811,4125,4162,0,
4129,2549,4163,1,
2549,4129,4164,0,
4135,2341,4165,1,
4124,1915,4166,1,
4132,2111,4167,1,
1915,4124,4168,0,
2341,4135,4169,0,
4121,1729,4170,1,
4138,1567,4171,1,
4121,1732,4172,0,
1567,4138,4173,0,
4141,1439,4174,1,
4144,1339,4175,1,
4125,3818,4176,0,
4118,1247,4177,1,
1247,4118,4178,0,
3920,4145,4179,1,
3954,4147,4180,1,
3955,4146,4181,1,
1439,4141,4182,0,
2111,4132,4183,0,
3962,4148,4184,1,
3837,4125,4185,0,
4152,4151,4186,0,
4154,4151,4187,0,
4155,0,4188,2,
4156,3870,4189,1,
4189,4099,4190,0,
4156,4190,4191,1,
4181,3866,4192,1,
4192,4099,4193,0,
4181,4193,4194,1,
4184,3888,4195,1,
4195,4099,4196,0,
4184,4196,4197,1,
4179,3824,4198,1,
4198,4099,4199,0,
4179,4199,4200,1,
4172,0,4201,2,
4159,0,4202,2,
4177,0,4203,2,
4152,0,4204,2,
4161,3537,4205,1,
3251,4152,4206,0,
4164,0,4207,2,
4163,0,4208,2,
4167,4166,4209,0,
4166,4132,4210,0,
4162,0,4211,2,
4168,0,4212,2,
4169,0,4213,2,
4167,0,4214,2,
4165,0,4215,2,
4170,0,4216,2,
4172,4171,4217,0,
4173,0,4218,2,
4174,0,4219,2,
4178,0,4220,2,
4180,3884,4221,1,
4221,4099,4222,0,
4180,4222,4223,1,
4175,0,4224,2,
4182,0,4225,2,
4153,4152,4226,0,
4154,0,4227,2,
4183,0,4228,2,
4151,0,4229,2,
4166,0,4230,2,
3909,4160,4231,0,
4157,0,4232,2,
4185,0,4233,2,
4171,0,4234,2,
4153,4186,4235,0,
4187,0,4236,2,
4191,0,4237,2,
4191,1088,4238,1,
4232,3818,4239,0,
1013,4194,4240,0,
979,4223,4241,0,
4194,1013,4242,1,
4223,979,4243,1,
1171,4200,4244,0,
4205,4162,4245,1,
4206,4151,4246,0,
4208,2557,4247,0,
4210,2111,4248,0,
4209,4165,4249,0,
4169,4209,4250,0,
4207,4213,4251,0,
4216,4171,4252,0,
4217,0,4253,2,
4219,1445,4254,0,
4200,1171,4255,1,
4224,4202,4256,0,
4197,0,4257,2,
4225,4218,4258,0,
4231,0,4259,2,
4236,4188,4260,0,
4237,1088,4261,0,
4258,4253,4262,0,
4253,4218,4263,0,
4243,4197,4264,0,
4244,0,4265,2,
4247,0,4266,2,
4248,0,4267,2,
4250,0,4268,2,
4254,0,4269,2,
4255,0,4270,2,
4238,0,4271,2,
4242,0,4272,2,
4243,0,4273,2,
4254,4202,4274,0,
4256,0,4275,2,
4241,0,4276,2,
4255,4177,4277,0,
4259,3964,4278,0,
4241,4197,4279,0,
4239,0,4280,2,
4240,0,4281,2,
4178,4255,4282,0,
4252,0,4283,2,
4262,4202,4284,0,
4261,0,4285,2,
4233,4280,4286,0,
3936,4278,4287,1,
4282,0,4288,2,
4279,0,4289,2,
4165,4266,4290,0,
4249,4266,4291,0,
4267,4212,4292,0,
4175,4269,4293,0,
4274,0,4294,2,
4283,4202,4295,0,
4286,0,4296,2,
4285,4238,4297,0,
4291,0,4298,2,
4292,4251,4299,0,
4293,0,4300,2,
4290,0,4301,2,
4275,4294,4302,0,
4265,4285,4303,0,
4265,4288,4304,0,
4287,4158,4305,0,
4295,4262,4306,0,
4296,3251,4307,1,
4297,0,4308,2,
3251,4296,4309,0,
4305,0,4310,2,
4246,4296,4311,0,
4298,4268,4312,0,
4300,4202,4313,0,
4301,4213,4314,0,
4206,4296,4315,0,
4302,4277,4316,0,
4306,0,4317,2,
4303,4288,4318,0,
4304,0,4319,2,
4235,4307,4320,0,
4242,4308,4321,0,
4312,4292,4322,0,
4310,4289,4323,0,
4153,4307,4324,0,
4307,4153,4325,1,
4311,0,4326,2,
4313,0,4327,2,
4271,4319,4328,0,
4314,0,4329,2,
4226,4307,4330,0,
4315,0,4331,2,
4316,4271,4332,0,
4242,4317,4333,0,
4309,0,4334,2,
4318,0,4335,2,
4320,0,4336,2,
4321,4335,4337,0,
4299,4326,4338,0,
4207,4326,4339,0,
4322,0,4340,2,
4177,4327,4341,0,
4328,0,4342,2,
4330,0,4343,2,
4333,4264,4344,0,
4284,4322,4345,0,
4324,0,4346,2,
4260,4336,4347,0,
4337,0,4348,2,
4252,4340,4349,0,
4345,0,4350,2,
4334,4346,4351,0,
4263,4338,4352,0,
4339,4213,4353,0,
4343,4227,4354,0,
4338,4262,4355,0,
4349,0,4356,2,
4284,4347,4357,0,
4348,4281,4358,0,
4204,4351,4359,1,
4355,4347,4360,0,
4347,4326,4361,0,
4339,4347,4362,0,
4338,4347,4363,0,
4352,4347,4364,0,
4353,4347,4365,0,
4354,4331,4366,0,
4344,4350,4367,0,
4284,4356,4368,0,
4357,4338,4369,0,
4262,4356,4370,0,
4358,0,4371,2,
4208,4361,4372,1,
4361,0,4373,2,
4362,0,4374,2,
4363,0,4375,2,
4263,4356,4376,0,
4364,0,4377,2,
4365,0,4378,2,
4229,4366,4379,1,
4360,0,4380,2,
4369,0,4381,2,
4368,0,4382,2,
4264,4371,4383,0,
4290,4374,4384,0,
4163,4373,4385,0,
4349,4375,4386,0,
4376,0,4387,2,
4329,4378,4388,0,
4375,4340,4389,0,
4370,0,4390,2,
4382,4381,4391,0,
4383,0,4392,2,
4389,4216,4393,0,
4385,0,4394,2,
4384,0,4395,2,
4386,0,4396,2,
4174,4387,4397,0,
4388,4167,4398,0,
4216,4389,4399,1,
4332,4381,4400,0,
4293,4390,4401,0,
4323,4392,4402,0,
4400,4382,4403,0,
4393,0,4404,2,
4395,4213,4405,0,
4394,4207,4406,0,
4396,4253,4407,0,
4341,4391,4408,0,
4397,4377,4409,0,
4398,0,4410,2,
4391,4316,4411,0,
4332,4391,4412,0,
4401,4380,4413,0,
4367,4400,4414,0,
4403,4242,4415,0,
4215,4406,4416,1,
4214,4405,4417,1,
4407,4218,4418,0,
4408,0,4419,2,
4409,0,4420,2,
4201,4404,4421,0,
4228,4410,4422,0,
4411,0,4423,2,
4413,0,4424,2,
4414,0,4425,2,
4412,0,4426,2,
4402,4425,4427,0,
4415,0,4428,2,
4424,4202,4429,0,
4304,4423,4430,0,
4219,4418,4431,1,
4419,4220,4432,0,
4426,4285,4433,0,
4420,4225,4434,0,
4230,4422,4435,1,
4234,4421,4436,1,
4359,4113,4437,1,
4437,4427,4438,0,
4359,4438,4439,1,
4399,4121,4440,1,
4440,4427,4441,0,
4399,4441,4442,1,
4238,4430,4443,1,
4435,4124,4444,1,
4444,4427,4445,0,
4435,4445,4446,1,
4379,4110,4447,1,
4447,4427,4448,0,
4379,4448,4449,1,
4245,4161,4450,1,
4450,4427,4451,0,
4245,4451,4452,1,
4325,4296,4453,1,
4453,4427,4454,0,
4325,4454,4455,1,
4372,4129,4456,1,
4456,4427,4457,0,
4372,4457,4458,1,
4427,0,4459,2,
4417,4132,4460,1,
4460,4427,4461,0,
4417,4461,4462,1,
4416,4135,4463,1,
4463,4427,4464,0,
4416,4464,4465,1,
4431,4141,4466,1,
4466,4427,4467,0,
4431,4467,4468,1,
4270,4432,4469,1,
4433,4342,4470,0,
4358,4428,4471,0,
4224,4434,4472,1,
4257,4427,4473,0,
4427,228,4474,0,
4427,4099,4475,0,
4203,4429,4476,1,
4436,4138,4477,1,
4477,4427,4478,0,
4436,4478,4479,1,
2111,4465,4480,0,
4476,4118,4481,1,
4481,4427,4482,0,
4476,4482,4483,1,
4439,2759,4484,1,
4442,1567,4485,1,
4443,4237,4486,1,
4486,4427,4487,0,
4443,4487,4488,1,
4479,0,4489,2,
1567,4442,4490,0,
4455,2992,4491,1,
4452,3251,4492,1,
2759,4439,4493,0,
2992,4455,4494,0,
3811,4459,4495,0,
1915,4462,4496,0,
1339,4468,4497,0,
4449,0,4498,2,
4465,2111,4499,1,
4458,2341,4500,0,
3251,4452,4501,0,
4458,2341,4502,1,
4099,4459,4503,0,
2341,4458,4504,0,
1439,4479,4505,0,
4468,1339,4506,1,
4469,4200,4507,1,
4507,4427,4508,0,
4469,4508,4509,1,
4272,4470,4510,1,
4273,4471,4511,1,
4473,0,4512,2,
4472,4144,4513,1,
4513,4427,4514,0,
4472,4514,4515,1,
4446,1729,4516,1,
4126,4459,4517,0,
4446,1732,4518,0,
4475,0,4519,2,
2549,4449,4520,0,
4471,0,4521,2,
4462,1915,4522,1,
4484,0,4523,2,
4518,0,4524,2,
4485,0,4525,2,
4520,0,4526,2,
4510,4194,4527,1,
4527,4427,4528,0,
4510,4528,4529,1,
4490,0,4530,2,
4499,4502,4531,0,
1247,4515,4532,0,
4493,0,4533,2,
4516,0,4534,2,
4501,4491,4535,0,
4505,0,4536,2,
4515,1247,4537,1,
4511,4223,4538,1,
4538,4427,4539,0,
4511,4539,4540,1,
3537,4492,4541,0,
4501,0,4542,2,
4492,0,4543,2,
4491,0,4544,2,
4498,2549,4545,1,
4503,0,4546,2,
4504,0,4547,2,
4502,0,4548,2,
4499,0,4549,2,
4506,0,4550,2,
4509,1088,4551,1,
1088,4509,4552,0,
4243,4521,4553,0,
4489,1439,4554,1,
1013,4488,4555,0,
4488,1013,4556,1,
4483,1171,4557,1,
4497,0,4558,2,
4496,0,4559,2,
1171,4483,4560,0,
4495,0,4561,2,
4517,0,4562,2,
4500,4499,4563,0,
4480,0,4564,2,
4492,4491,4565,0,
4494,0,4566,2,
2776,4523,4567,0,
4533,4526,4568,0,
4529,979,4569,1,
4522,4534,4570,0,
4497,4537,4571,0,
4532,0,4572,2,
4551,0,4573,2,
4557,0,4574,2,
4496,4534,4575,0,
4125,4561,4576,0,
4545,0,4577,2,
4537,0,4578,2,
4546,4211,4579,0,
4554,0,4580,2,
4553,0,4581,2,
4552,0,4582,2,
4524,4530,4583,0,
979,4529,4584,0,
4525,1571,4585,0,
4536,4554,4586,0,
4555,0,4587,2,
4556,0,4588,2,
4556,4551,4589,0,
4506,4537,4590,0,
4546,3811,4591,1,
4540,0,4592,2,
4541,4491,4593,0,
4563,0,4594,2,
4535,0,4595,2,
4560,0,4596,2,
4567,0,4597,2,
4564,4594,4598,0,
4584,0,4599,2,
4595,4566,4600,0,
4571,0,4601,2,
4585,0,4602,2,
4575,0,4603,2,
4579,0,4604,2,
1174,4574,4605,0,
4570,0,4606,2,
4581,4276,4607,0,
4569,4540,4608,0,
4585,4536,4609,0,
4584,4540,4610,0,
4586,0,4611,2,
4576,0,4612,2,
4591,4475,4613,1,
4569,0,4614,2,
4597,4577,4615,0,
4568,4598,4616,0,
4565,4604,4617,0,
4562,4612,4618,0,
4608,4556,4619,0,
4492,4604,4620,0,
4580,4602,4621,0,
4605,0,4622,2,
4606,4536,4623,0,
4583,4603,4624,0,
4555,4608,4625,0,
4257,4607,4626,1,
4610,0,4627,2,
4609,0,4628,2,
4572,4601,4629,0,
4603,4524,4630,0,
4615,0,4631,2,
4618,0,4632,2,
4624,4536,4633,0,
4596,4629,4634,0,
4551,4622,4635,0,
4623,4624,4636,0,
4621,0,4637,2,
4629,0,4638,2,
4626,4512,4639,0,
4625,0,4640,2,
4611,4628,4641,0,
4631,4526,4642,0,
4641,4590,4643,0,
4632,3537,4644,1,
4593,4632,4645,0,
3537,4632,4646,0,
4541,4632,4647,0,
4634,0,4648,2,
4637,4536,4649,0,
4636,0,4650,2,
4627,4640,4651,0,
4557,4638,4652,0,
4639,0,4653,2,
4642,0,4654,2,
4645,0,4655,2,
4643,4557,4656,0,
4620,4644,4657,0,
4644,4604,4658,0,
4646,0,4659,2,
4647,0,4660,2,
4644,0,4661,2,
4635,4648,4662,0,
4589,4650,4663,0,
4649,0,4664,2,
4617,4644,4665,0,
4651,4653,4666,0,
4652,0,4667,2,
4531,4654,4668,0,
4616,4655,4669,0,
4665,0,4670,2,
4533,4655,4671,0,
4658,0,4672,2,
4657,0,4673,2,
4579,4661,4674,1,
4662,0,4675,2,
4506,4664,4676,0,
4608,4663,4677,0,
4668,0,4678,2,
4673,4542,4679,0,
4659,4672,4680,0,
4669,4624,4681,0,
4600,4670,4682,0,
4675,4582,4683,0,
4671,4526,4684,0,
4682,4655,4685,0,
4598,4678,4686,0,
4669,4682,4687,0,
4683,0,4688,2,
4543,4680,4689,1,
4679,4660,4690,0,
4681,4682,4691,0,
4684,4682,4692,0,
4671,4682,4693,0,
4633,4682,4694,0,
4686,0,4695,2,
4669,4694,4696,0,
4685,0,4697,2,
4692,0,4698,2,
4523,4685,4699,1,
4544,4690,4700,1,
4691,0,4701,2,
4686,4633,4702,0,
4556,4688,4703,0,
4685,4616,4704,0,
4687,0,4705,2,
4693,0,4706,2,
4619,4688,4707,0,
4570,4695,4708,0,
4696,0,4709,2,
4704,0,4710,2,
4654,4698,4711,0,
4702,0,4712,2,
4484,4697,4713,0,
4706,4615,4714,0,
4703,0,4715,2,
4707,0,4716,2,
4708,0,4717,2,
4643,4709,4718,0,
4676,4709,4719,0,
4677,4712,4720,0,
4708,4705,4721,0,
4666,4716,4722,0,
4711,4502,4723,0,
4710,4695,4724,0,
4708,4710,4725,0,
4656,4709,4726,0,
4713,0,4727,2,
4714,0,4728,2,
4633,4717,4729,0,
4721,0,4730,2,
4723,0,4731,2,
4728,4526,4732,0,
4724,4522,4733,1,
4624,4717,4734,0,
4724,4522,4735,0,
4663,4726,4736,0,
4725,0,4737,2,
4727,4533,4738,0,
4720,4726,4739,0,
4729,0,4740,2,
4630,4730,4741,0,
4739,0,4742,2,
4737,4603,4743,0,
4545,4738,4744,1,
4547,4731,4745,0,
4548,4732,4746,1,
4734,0,4747,2,
4736,4712,4748,0,
4735,0,4749,2,
4743,4524,4750,0,
4722,4742,4751,0,
4741,0,4752,2,
4549,4745,4753,1,
4621,4747,4754,0,
4726,4740,4755,0,
4719,4740,4756,0,
4748,0,4757,2,
4718,4740,4758,0,
4559,4749,4759,0,
4525,4750,4760,1,
4751,0,4761,2,
4485,4752,4762,0,
4516,4759,4763,1,
4753,4465,4764,1,
4764,4751,4765,0,
4753,4765,4766,1,
4689,4452,4767,1,
4767,4751,4768,0,
4689,4768,4769,1,
4699,4439,4770,1,
4770,4751,4771,0,
4699,4771,4772,1,
4700,4455,4773,1,
4773,4751,4774,0,
4700,4774,4775,1,
4744,4449,4776,1,
4776,4751,4777,0,
4744,4777,4778,1,
4674,4632,4779,1,
4779,4751,4780,0,
4674,4780,4781,1,
4613,4519,4782,1,
4782,4751,4783,0,
4613,4783,4784,1,
4746,4458,4785,1,
4785,4751,4786,0,
4746,4786,4787,1,
4733,4462,4788,1,
4788,4751,4789,0,
4733,4789,4790,1,
4754,4701,4791,0,
4751,4427,4792,0,
4755,4551,4793,0,
4751,228,4794,0,
4757,4587,4795,0,
4756,0,4796,2,
4758,0,4797,2,
4755,0,4798,2,
4629,4797,4799,0,
4475,4761,4800,0,
4762,0,4801,2,
4795,4715,4802,0,
4763,4446,4803,1,
4803,4751,4804,0,
4763,4804,4805,1,
4784,3537,4806,1,
4796,4558,4807,0,
4781,3251,4808,1,
4769,2992,4809,1,
4772,2549,4810,1,
4775,2759,4811,1,
4778,2341,4812,1,
2759,4775,4813,0,
2341,4778,4814,0,
3537,4784,4815,0,
3251,4781,4816,0,
4787,2111,4817,1,
4790,1732,4818,0,
1915,4766,4819,0,
4766,1915,4820,1,
4790,1729,4821,1,
4760,4442,4822,1,
4822,4751,4823,0,
4760,4823,4824,1,
4791,0,4825,2,
2549,4772,4826,0,
4792,0,4827,2,
2992,4769,4828,0,
4761,4459,4829,0,
4793,0,4830,2,
2111,4787,4831,0,
4099,4761,4832,0,
4427,4761,4833,0,
4798,4596,4834,0,
4574,4799,4835,1,
4614,4802,4836,1,
4800,0,4837,2,
4801,4530,4838,0,
4834,4667,4839,0,
4806,4808,4840,0,
4832,0,4841,2,
4828,0,4842,2,
4809,0,4843,2,
4810,4811,4844,0,
4810,4812,4845,0,
4812,4772,4846,0,
4814,0,4847,2,
4815,4808,4848,0,
4831,4820,4849,0,
4816,0,4850,2,
4818,0,4851,2,
4817,4820,4852,0,
4819,0,4853,2,
4813,0,4854,2,
1729,4821,4855,0,
4805,1567,4856,1,
4821,0,4857,2,
4825,4536,4858,0,
4826,0,4859,2,
4824,1439,4860,1,
4812,0,4861,2,
4578,4807,4862,1,
4833,0,4863,2,
4811,0,4864,2,
4176,4829,4865,0,
4810,0,4866,2,
4815,0,4867,2,
1439,4824,4868,0,
4831,0,4869,2,
4808,0,4870,2,
4683,4830,4871,0,
4820,0,4872,2,
4802,0,4873,2,
4806,0,4874,2,
1567,4805,4875,0,
3811,4806,4876,0,
4838,4580,4877,1,
4836,4529,4878,1,
4878,4751,4879,0,
4836,4879,4880,1,
4875,0,4881,2,
4569,4873,4882,0,
4862,4515,4883,1,
4883,4751,4884,0,
4862,4884,4885,1,
4843,3003,4886,0,
4844,4812,4887,0,
4813,4845,4888,0,
4846,2549,4889,0,
4848,0,4890,2,
4851,4853,4891,0,
4849,0,4892,2,
4855,0,4893,2,
4550,4858,4894,1,
4856,0,4895,2,
4860,0,4896,2,
4835,4483,4897,1,
4897,4751,4898,0,
4835,4898,4899,1,
4863,4099,4900,1,
3596,4865,4901,0,
4852,0,4902,2,
4868,0,4903,2,
4588,4871,4904,1,
4842,4854,4905,0,
4863,4546,4906,0,
4841,4459,4907,0,
4573,4839,4908,1,
4882,0,4909,2,
4904,4488,4910,1,
4910,4751,4911,0,
4904,4911,4912,1,
4907,0,4913,2,
4906,0,4914,2,
4877,4489,4915,1,
4915,4751,4916,0,
4877,4916,4917,1,
4891,4892,4918,0,
4885,0,4919,2,
4899,1088,4920,1,
4908,4509,4921,1,
4921,4751,4922,0,
4908,4922,4923,1,
4886,0,4924,2,
4889,0,4925,2,
4888,0,4926,2,
4890,4850,4927,0,
4892,4853,4928,0,
4856,4893,4929,0,
4894,4468,4930,1,
4930,4751,4931,0,
4894,4931,4932,1,
4880,0,4933,2,
4900,4792,4934,1,
3025,4901,4935,0,
1088,4899,4936,0,
4902,4881,4937,0,
4885,1171,4938,0,
1013,4923,4939,0,
4923,1013,4940,1,
4917,1339,4941,1,
4912,979,4942,1,
4917,0,4943,2,
4938,0,4944,2,
4837,4913,4945,0,
4919,1171,4946,1,
4932,1247,4947,1,
4887,4924,4948,0,
4847,4925,4949,0,
4840,4914,4950,0,
4811,4924,4951,0,
2601,4935,4952,0,
4918,4881,4953,0,
4929,0,4954,2,
4914,4806,4955,0,
4936,0,4956,2,
979,4912,4957,0,
4937,4918,4958,0,
4920,0,4959,2,
4909,4599,4960,0,
1247,4932,4961,0,
4939,0,4962,2,
4942,0,4963,2,
4905,4949,4964,0,
1339,4943,4965,0,
4945,0,4966,2,
4946,0,4967,2,
4957,4880,4968,0,
4948,0,4969,2,
4951,0,4970,2,
4947,0,4971,2,
4941,0,4972,2,
4954,4881,4973,0,
4936,4940,4974,0,
4961,0,4975,2,
4942,4880,4976,0,
4958,0,4977,2,
4940,0,4978,2,
4957,0,4979,2,
4540,4960,4980,1,
4920,4940,4981,0,
4966,3811,4982,1,
4971,1254,4983,0,
4965,0,4984,2,
4868,4972,4985,0,
3811,4966,4986,0,
4980,4592,4987,1,
4987,4751,4988,0,
4980,4988,4989,1,
4967,4920,4990,0,
4876,4966,4991,0,
4926,4969,4992,0,
4970,4854,4993,0,
4973,0,4994,2,
4974,0,4995,2,
4976,4940,4996,0,
4968,0,4997,2,
4976,4981,4998,0,
4986,0,4999,2,
4985,0,5000,2,
4984,4975,5001,0,
4983,0,5002,2,
4991,4808,5003,0,
4990,4977,5004,0,
4992,4949,5005,0,
4950,4982,5006,0,
4993,0,5007,2,
4972,4994,5008,0,
4860,4994,5009,0,
4955,4982,5010,0,
4991,0,5011,2,
4995,4962,5012,0,
4982,0,5013,2,
4982,4914,5014,0,
4996,4947,5015,0,
5014,0,5016,2,
5001,5000,5017,0,
5002,4967,5018,0,
5005,0,5019,2,
5006,0,5020,2,
5003,0,5021,2,
4810,5007,5022,0,
5008,4860,5023,0,
4984,5000,5024,0,
5010,0,5025,2,
5015,5004,5026,0,
5012,0,5027,2,
4953,5005,5028,0,
4906,5013,5029,1,
4927,5020,5030,0,
5017,0,5031,2,
4852,5019,5032,0,
4964,5021,5033,0,
4842,5021,5034,0,
5028,0,5035,2,
5023,4947,5036,0,
5024,0,5037,2,
5025,4867,5038,0,
4976,5027,5039,0,
4999,5016,5040,0,
4953,5021,5041,0,
5018,5031,5042,0,
5032,0,5043,2,
5030,4854,5044,0,
5033,5030,5045,0,
5030,5021,5046,0,
5034,5030,5047,0,
5004,5035,5048,0,
4947,5037,5049,0,
5038,5011,5050,0,
4874,5040,5051,1,
5030,4964,5052,0,
5039,0,5053,2,
5023,5035,5054,0,
5042,0,5055,2,
5041,5052,5056,0,
4997,5053,5057,0,
4918,5043,5058,0,
4928,5043,5059,0,
5044,5034,5060,0,
4928,5045,5061,0,
5045,4918,5062,0,
5045,0,5063,2,
5046,0,5064,2,
4843,5046,5065,1,
5047,0,5066,2,
5045,4953,5067,0,
4953,5043,5068,0,
5049,0,5069,2,
5048,4940,5070,0,
4870,5050,5071,1,
5055,4944,5072,0,
5068,0,5073,2,
5057,4989,5074,0,
5058,0,5075,2,
5059,0,5076,2,
5060,0,5077,2,
5062,0,5078,2,
5061,0,5079,2,
5063,5019,5080,0,
4809,5064,5081,0,
5032,5063,5082,0,
4951,5066,5083,0,
5067,0,5084,2,
5056,0,5085,2,
5072,0,5086,2,
4929,5075,5087,0,
5076,4857,5088,0,
5022,5077,5089,0,
5080,4817,5090,1,
5081,0,5091,2,
5082,0,5092,2,
5083,0,5093,2,
5036,5084,5094,0,
5009,5073,5095,0,
5080,4817,5096,0,
5073,5084,5097,0,
4967,5073,5098,0,
5026,5085,5099,0,
5086,4998,5100,0,
5099,5054,5101,0,
5088,5079,5102,0,
5087,5078,5103,0,
5089,0,5104,2,
5091,4842,5105,0,
5092,4892,5106,0,
5093,4854,5107,0,
5086,4920,5108,0,
5048,5094,5109,0,
5095,5084,5110,0,
5096,0,5111,2,
5097,5023,5112,0,
5070,5094,5113,0,
5094,5098,5114,0,
5097,5036,5115,0,
5115,0,5116,2,
5100,0,5117,2,
5114,0,5118,2,
5102,0,5119,2,
5103,0,5120,2,
4859,5104,5121,0,
4864,5105,5122,1,
5106,4853,5123,0,
4866,5107,5124,1,
5108,4940,5125,0,
5109,0,5126,2,
5110,0,5127,2,
5108,0,5128,2,
5112,0,5129,2,
5111,4869,5130,0,
5101,0,5131,2,
5113,0,5132,2,
5074,5117,5133,0,
4872,5130,5134,1,
5119,4851,5135,0,
5120,4881,5136,0,
4861,5121,5137,1,
4821,5123,5138,1,
5125,0,5139,2,
5126,4956,5140,0,
5012,5132,5141,0,
5116,4975,5142,0,
5072,5118,5143,0,
5127,4903,5144,0,
5024,5129,5145,0,
4941,5144,5146,1,
5133,5131,5147,0,
4971,5145,5148,1,
4896,5136,5149,1,
4895,5135,5150,1,
5141,5139,5151,0,
5140,5128,5152,0,
5142,5069,5153,0,
4959,5143,5154,1,
4963,5151,5155,1,
5134,4766,5156,1,
5156,5147,5157,0,
5134,5157,5158,1,
5029,4966,5159,1,
5159,5147,5160,0,
5029,5160,5161,1,
5065,4769,5162,1,
5162,5147,5163,0,
5065,5163,5164,1,
5051,4784,5165,1,
5165,5147,5166,0,
5051,5166,5167,1,
5146,4943,5168,1,
5168,5147,5169,0,
5146,5169,5170,1,
5071,4781,5171,1,
5171,5147,5172,0,
5071,5172,5173,1,
4946,5153,5174,1,
5149,4824,5175,1,
5175,5147,5176,0,
5149,5176,5177,1,
5148,4932,5178,1,
5178,5147,5179,0,
5148,5179,5180,1,
5137,4778,5181,1,
5181,5147,5182,0,
5137,5182,5183,1,
5090,4787,5184,1,
5184,5147,5185,0,
5090,5185,5186,1,
5150,4805,5187,1,
5187,5147,5188,0,
5150,5188,5189,1,
5154,4899,5190,1,
5190,5147,5191,0,
5154,5191,5192,1,
5147,0,5193,2,
4934,4827,5194,1,
5194,5147,5195,0,
4934,5195,5196,1,
5147,4751,5197,0,
5122,4775,5198,1,
5198,5147,5199,0,
5122,5199,5200,1,
5138,4790,5201,1,
5201,5147,5202,0,
5138,5202,5203,1,
5124,4772,5204,1,
5204,5147,5205,0,
5124,5205,5206,1,
5147,228,5207,0,
4978,5152,5208,1,
5151,0,5209,2,
5189,1439,5210,1,
5200,2549,5211,1,
2992,5173,5212,0,
5167,3251,5213,1,
5158,1729,5214,1,
5183,2111,5215,1,
5206,2341,5216,1,
5164,2759,5217,1,
2341,5206,5218,0,
5161,3537,5219,1,
5174,4885,5220,1,
5220,5147,5221,0,
5174,5221,5222,1,
1567,5203,5223,0,
5170,1247,5224,1,
1171,5180,5225,0,
1915,5186,5226,0,
1339,5177,5227,0,
1439,5189,5228,0,
2111,5183,5229,0,
1247,5170,5230,0,
5177,1339,5231,1,
5186,1915,5232,1,
5192,1013,5233,1,
1013,5192,5234,0,
5208,4923,5235,1,
5235,5147,5236,0,
5208,5236,5237,1,
5180,1171,5238,1,
5203,1567,5239,1,
5155,4912,5240,1,
5240,5147,5241,0,
5155,5241,5242,1,
4427,5193,5243,0,
4792,5193,5244,0,
4751,5193,5245,0,
5196,3811,5246,1,
5197,0,5247,2,
2759,5164,5248,0,
3811,5196,5249,0,
3251,5167,5250,0,
4942,5209,5251,0,
3537,5161,5252,0,
5173,2992,5253,1,
5158,1732,5254,0,
2549,5200,5255,0,
5254,0,5256,2,
5223,0,5257,2,
5246,5219,5258,0,
5215,5216,5259,0,
5212,0,5260,2,
5213,0,5261,2,
5223,5210,5262,0,
5222,1088,5263,1,
5229,0,5264,2,
5227,0,5265,2,
5226,0,5266,2,
1088,5222,5267,0,
5224,0,5268,2,
5230,0,5269,2,
5228,0,5270,2,
5232,0,5271,2,
5233,0,5272,2,
5231,0,5273,2,
5234,0,5274,2,
5237,979,5275,1,
979,5237,5276,0,
5210,5239,5277,0,
5238,5224,5278,0,
5243,0,5279,2,
5244,0,5280,2,
5245,0,5281,2,
5214,0,5282,2,
5246,0,5283,2,
5225,0,5284,2,
5217,0,5285,2,
5248,0,5286,2,
5211,0,5287,2,
5239,0,5288,2,
5242,0,5289,2,
5218,5215,5290,0,
5218,0,5291,2,
5215,0,5292,2,
4099,5246,5293,0,
5249,0,5294,2,
5250,0,5295,2,
5219,0,5296,2,
5249,5219,5297,0,
5238,0,5298,2,
5253,0,5299,2,
5252,0,5300,2,
5251,0,5301,2,
5210,0,5302,2,
5255,0,5303,2,
5211,5164,5304,0,
5217,5211,5305,0,
5304,2759,5306,0,
5261,3261,5307,0,
5262,0,5308,2,
5225,5263,5309,0,
5266,5264,5310,0,
5267,0,5311,2,
5268,1254,5312,0,
5259,0,5313,2,
5270,5265,5314,0,
5273,1341,5315,0,
5272,1018,5316,0,
5271,1919,5317,0,
5295,5260,5318,0,
5214,5256,5319,0,
5275,5242,5320,0,
5276,5242,5321,0,
5279,4761,5322,0,
4863,5281,5323,0,
5281,4427,5324,1,
5233,5263,5325,0,
5263,0,5326,2,
5275,0,5327,2,
5276,0,5328,2,
5290,0,5329,2,
5297,0,5330,2,
5301,4979,5331,0,
5329,5264,5332,0,
5310,5329,5333,0,
5323,0,5334,2,
5307,0,5335,2,
5309,0,5336,2,
5308,5269,5337,0,
5312,0,5338,2,
5313,5256,5339,0,
5316,0,5340,2,
5315,5269,5341,0,
5319,0,5342,2,
5317,5256,5343,0,
4880,5331,5344,1,
5321,0,5345,2,
5322,0,5346,2,
5317,0,5347,2,
5324,5197,5348,1,
5314,5308,5349,0,
5270,5308,5350,0,
5315,0,5351,2,
5330,5300,5352,0,
5306,0,5353,2,
5347,5282,5354,0,
5333,5256,5355,0,
5335,5253,5356,0,
5336,5311,5357,0,
5303,5353,5358,0,
5337,5314,5359,0,
5238,5338,5360,0,
5339,5333,5361,0,
5341,0,5362,2,
5277,5342,5363,0,
5320,5340,5364,0,
5343,0,5365,2,
5344,4933,5366,1,
5366,5147,5367,0,
5344,5367,5368,1,
5280,5346,5369,0,
5334,5246,5370,0,
5349,0,5371,2,
5350,0,5372,2,
5258,5334,5373,0,
5364,5263,5374,0,
5356,0,5375,2,
5357,5274,5376,0,
5359,0,5377,2,
5318,5358,5378,0,
5361,0,5379,2,
5363,5365,5380,0,
5368,5345,5381,0,
5369,0,5382,2,
5357,0,5383,2,
5371,5351,5384,0,
5231,5372,5385,0,
5354,0,5386,2,
5293,5382,5387,0,
5386,5256,5388,0,
5375,5260,5389,0,
5360,5377,5390,0,
5376,0,5391,2,
5278,5379,5392,0,
5380,5231,5393,0,
5382,4099,5394,1,
4099,5382,5395,0,
5233,5383,5396,0,
5384,5224,5397,0,
5385,0,5398,2,
5373,5394,5399,0,
5389,0,5400,2,
5364,5391,5401,0,
5390,5362,5402,0,
5374,5392,5403,0,
5394,5334,5404,0,
5395,0,5405,2,
5394,0,5406,2,
5396,0,5407,2,
5370,5394,5408,0,
5397,0,5409,2,
5387,0,5410,2,
5398,5265,5411,0,
5387,5219,5412,0,
5388,0,5413,2,
5412,0,5414,2,
5305,5400,5415,0,
5401,0,5416,2,
5374,5402,5417,0,
5404,0,5418,2,
5323,5406,5419,1,
5325,5402,5420,0,
5402,0,5421,2,
5402,5263,5422,0,
5407,5274,5423,0,
5408,0,5424,2,
5409,5269,5425,0,
5399,0,5426,2,
5239,5413,5427,0,
5352,5426,5428,0,
5295,5414,5429,0,
5415,0,5430,2,
5355,5414,5431,0,
5417,0,5432,2,
5381,5416,5433,0,
5378,5414,5434,0,
5405,5418,5435,0,
5420,0,5436,2,
5422,0,5437,2,
5424,5294,5438,0,
5428,5355,5439,0,
5358,5430,5440,0,
5428,5378,5441,0,
5433,5432,5442,0,
5434,5428,5443,0,
5283,5435,5444,1,
5423,5436,5445,0,
5438,5410,5446,0,
5429,5260,5447,0,
5429,5428,5448,0,
5428,5414,5449,0,
5434,5439,5450,0,
5448,0,5451,2,
5449,0,5452,2,
5440,0,5453,2,
5355,5440,5454,0,
5431,5441,5455,0,
5442,0,5456,2,
5147,5442,5457,0,
5443,5333,5458,0,
5443,0,5459,2,
5443,5332,5460,0,
5296,5446,5461,1,
5447,5428,5462,0,
5452,5213,5463,1,
5450,0,5464,2,
5453,5259,5465,0,
5455,0,5466,2,
5454,0,5467,2,
4751,5456,5468,0,
5457,0,5469,2,
5458,0,5470,2,
5216,5453,5471,0,
5453,5459,5472,0,
5452,5213,5473,0,
5460,0,5474,2,
5451,5356,5475,0,
5462,0,5476,2,
5465,0,5477,2,
5403,5466,5478,0,
5393,5467,5479,0,
4751,5466,5480,0,
5392,5467,5481,0,
5374,5464,5482,0,
5468,0,5483,2,
5393,5464,5484,0,
4751,5469,5485,0,
5400,5476,5486,0,
5471,5459,5487,0,
5459,5465,5488,0,
5216,5472,5489,1,
5473,0,5490,2,
5475,0,5491,2,
5355,5477,5492,0,
5479,5403,5493,0,
5478,5479,5494,0,
5481,5393,5495,0,
5482,4751,5496,0,
5333,5477,5497,0,
5484,5481,5498,0,
5485,0,5499,2,
5491,5260,5500,0,
5481,5263,5501,0,
5486,5217,5502,0,
5487,0,5503,2,
5488,0,5504,2,
5332,5477,5505,0,
5490,5295,5506,0,
5492,0,5507,2,
5493,5480,5508,0,
5494,0,5509,2,
5496,5495,5510,0,
5497,0,5511,2,
5498,0,5512,2,
5501,5484,5513,0,
5285,5500,5514,1,
5502,0,5515,2,
5495,5482,5516,0,
5503,5291,5517,0,
5332,5504,5518,0,
5505,0,5519,2,
5299,5506,5520,1,
5427,5507,5521,0,
5442,5509,5522,0,
5508,0,5523,2,
5510,0,5524,2,
5354,5511,5525,0,
5512,5284,5526,0,
5513,5233,5527,0,
5513,0,5528,2,
5286,5515,5529,0,
5516,0,5530,2,
5292,5517,5531,1,
5224,5507,5532,0,
5507,5464,5533,0,
5271,5518,5534,1,
5232,5519,5535,0,
5461,5161,5536,1,
5536,5522,5537,0,
5461,5537,5538,1,
5444,5196,5539,1,
5539,5522,5540,0,
5444,5540,5541,1,
5463,5167,5542,1,
5542,5522,5543,0,
5463,5543,5544,1,
5521,5464,5545,0,
5523,5193,5546,0,
5522,0,5547,2,
5419,5382,5548,1,
5548,5522,5549,0,
5419,5549,5550,1,
5525,5470,5551,0,
5348,5247,5552,1,
5552,5522,5553,0,
5348,5553,5554,1,
5520,5173,5555,1,
5555,5522,5556,0,
5520,5556,5557,1,
5514,5164,5558,1,
5558,5522,5559,0,
5514,5559,5560,1,
5526,5421,5561,0,
5357,5528,5562,0,
5527,0,5563,2,
5287,5529,5564,1,
5457,5530,5565,0,
5533,5380,5566,0,
5532,5484,5567,0,
5489,5206,5568,1,
5568,5522,5569,0,
5489,5569,5570,1,
5533,5393,5571,0,
5531,5183,5572,1,
5572,5522,5573,0,
5531,5573,5574,1,
5534,5186,5575,1,
5575,5522,5576,0,
5534,5576,5577,1,
5535,5474,5578,0,
5560,0,5579,2,
5574,0,5580,2,
5570,2111,5581,1,
5544,0,5582,2,
5538,3251,5583,1,
5545,0,5584,2,
5197,5547,5585,0,
5546,5483,5586,0,
5147,5547,5587,0,
5550,3811,5588,1,
3537,5541,5589,0,
3811,5550,5590,0,
5554,4099,5591,1,
5551,0,5592,2,
5326,5561,5593,1,
2549,5560,5594,0,
2759,5557,5595,0,
5562,5437,5596,0,
5445,5563,5597,0,
5554,0,5598,2,
5550,0,5599,2,
5564,5200,5600,1,
5600,5522,5601,0,
5564,5601,5602,1,
5522,5565,5603,0,
5541,0,5604,2,
5547,5193,5605,0,
228,5547,5606,0,
5567,0,5607,2,
5566,0,5608,2,
5571,0,5609,2,
2111,5570,5610,0,
1915,5574,5611,0,
5577,1732,5612,0,
5578,0,5613,2,
5577,0,5614,2,
5538,0,5615,2,
2992,5544,5616,0,
3251,5538,5617,0,
5577,1729,5618,1,
5557,2759,5619,1,
3545,5604,5620,0,
5616,0,5621,2,
5617,0,5622,2,
5618,0,5623,2,
5584,5257,5624,0,
5585,0,5625,2,
5586,0,5626,2,
5587,0,5627,2,
5588,5554,5628,0,
5592,5256,5629,0,
5589,0,5630,2,
5590,0,5631,2,
5593,5222,5632,1,
5632,5522,5633,0,
5593,5633,5634,1,
5594,0,5635,2,
5595,0,5636,2,
5272,5596,5637,1,
5327,5597,5638,1,
5597,0,5639,2,
5599,5598,5640,0,
5602,0,5641,2,
5615,5582,5642,0,
5614,5604,5643,0,
5580,5579,5644,0,
4952,5605,5645,0,
5605,4829,5646,0,
5605,4901,5647,0,
5605,228,5648,0,
228,5606,5649,1,
4427,5591,5650,0,
5611,0,5651,2,
5610,0,5652,2,
5579,2557,5653,0,
5411,5609,5654,0,
5425,5607,5655,0,
5350,5608,5656,0,
5612,0,5657,2,
5602,2341,5658,1,
5582,3003,5659,0,
2341,5602,5660,0,
5613,5266,5661,0,
5580,1919,5662,0,
5662,0,5663,2,
5214,5661,5664,1,
5302,5624,5665,1,
5524,5627,5666,0,
5625,5626,5667,0,
5628,4099,5668,0,
5288,5629,5669,1,
5630,5631,5670,0,
5635,5636,5671,0,
5634,0,5672,2,
5275,5639,5673,0,
5637,5192,5674,1,
5674,5522,5675,0,
5637,5675,5676,1,
5638,5237,5677,1,
5677,5522,5678,0,
5638,5678,5679,1,
5641,5603,5680,0,
5643,5644,5681,0,
2170,5645,5682,0,
5646,4176,5683,0,
5647,3025,5684,0,
5647,228,5685,0,
5646,228,5686,0,
5645,228,5687,0,
5648,4761,5688,0,
5649,216,5689,0,
1013,5634,5690,0,
5273,5656,5691,1,
5298,5655,5692,1,
5268,5654,5693,1,
5651,5652,5694,0,
5653,0,5695,2,
5660,0,5696,2,
5659,0,5697,2,
5620,0,5698,2,
5621,5622,5699,0,
5658,5695,5700,0,
5693,5170,5701,1,
5701,5522,5702,0,
5693,5702,5703,1,
5692,5180,5704,1,
5704,5522,5705,0,
5692,5705,5706,1,
5581,5663,5707,0,
5691,5177,5708,1,
5708,5522,5709,0,
5691,5709,5710,1,
5665,5189,5711,1,
5711,5522,5712,0,
5665,5712,5713,1,
5667,0,5714,2,
5666,5499,5715,0,
5699,0,5716,2,
5668,0,5717,2,
5664,5158,5718,1,
5718,5522,5719,0,
5664,5719,5720,1,
5669,5203,5721,1,
5721,5522,5722,0,
5669,5722,5723,1,
5672,1018,5724,0,
5673,0,5725,2,
5676,0,5726,2,
5679,0,5727,2,
979,5679,5728,0,
5642,5667,5729,0,
5676,979,5730,1,
1846,5682,5731,0,
5682,1754,5732,0,
5683,228,5733,0,
5684,228,5734,0,
5682,228,5735,0,
5686,4125,5736,0,
5685,3003,5737,0,
5687,2127,5738,0,
5690,0,5739,2,
5623,5663,5740,0,
5619,5697,5741,0,
5671,0,5742,2,
5694,0,5743,2,
5741,5698,5744,0,
5583,5700,5745,0,
5710,1247,5746,1,
5713,0,5747,2,
5715,0,5748,2,
5714,4427,5749,1,
5741,5716,5750,0,
5670,5717,5751,0,
5723,0,5752,2,
5710,0,5753,2,
5720,0,5754,2,
5703,0,5755,2,
5724,0,5756,2,
5726,5680,5757,0,
5728,5676,5758,0,
5725,5328,5759,0,
5681,5729,5760,0,
5731,796,5761,0,
5732,1481,5762,0,
5731,984,5763,0,
1037,5731,5764,0,
5731,228,5765,0,
5732,228,5766,0,
1339,5713,5767,0,
1247,5710,5768,0,
1171,5703,5769,0,
5735,1729,5770,0,
5733,3545,5771,0,
5734,2557,5772,0,
1439,5723,5773,0,
5650,5714,5774,0,
1088,5706,5775,0,
1567,5720,5776,0,
5723,1439,5777,1,
5707,5623,5778,0,
5706,0,5779,2,
5706,1088,5780,1,
5741,5700,5781,0,
5740,5743,5782,0,
5700,5742,5783,0,
5755,1174,5784,0,
1571,5754,5785,0,
5782,0,5786,2,
5781,5716,5787,0,
5778,0,5788,2,
5747,1341,5789,0,
5588,5748,5790,0,
5749,5591,5791,0,
5750,0,5792,2,
5779,5747,5793,0,
5753,5754,5794,0,
5752,5640,5795,0,
5672,5755,5796,0,
5756,5679,5797,0,
5242,5759,5798,1,
5758,0,5799,2,
5763,929,5800,0,
5761,915,5801,0,
5762,1277,5802,0,
5764,1060,5803,0,
5761,228,5804,0,
5764,228,5805,0,
5765,219,5806,0,
5762,228,5807,0,
5766,1445,5808,0,
5768,0,5809,2,
5769,0,5810,2,
5767,0,5811,2,
5773,0,5812,2,
5776,0,5813,2,
5775,0,5814,2,
5774,5588,5815,0,
5783,0,5816,2,
5745,5744,5817,0,
5797,5730,5818,0,
5817,0,5819,2,
5787,0,5820,2,
5657,5813,5821,0,
5816,5696,5822,0,
5789,0,5823,2,
5790,5791,5824,0,
5671,5792,5825,0,
5794,5795,5826,0,
5727,5793,5827,0,
5757,5796,5828,0,
5798,5289,5829,1,
5829,5522,5830,0,
5798,5830,5831,1,
5760,5799,5832,0,
5802,1117,5833,0,
5801,228,5834,0,
5800,228,5835,0,
5805,219,5836,0,
5803,228,5837,0,
5804,219,5838,0,
5807,1254,5839,0,
5809,5810,5840,0,
5811,5812,5841,0,
5802,228,5842,0,
5784,0,5843,2,
5785,0,5844,2,
1128,5802,5845,0,
5815,0,5846,2,
5739,5814,5847,0,
5831,5799,5848,0,
5841,0,5849,2,
5780,5843,5850,0,
5777,5844,5851,0,
5818,228,5852,0,
5821,5786,5853,0,
5746,5823,5854,0,
5824,0,5855,2,
5827,5826,5856,0,
5834,219,5857,0,
5833,987,5858,0,
5835,219,5859,0,
5837,219,5860,0,
5833,228,5861,0,
5842,1096,5862,0,
5820,5819,5863,0,
5840,0,5864,2,
5846,5696,5865,0,
5822,5853,5866,0,
5854,5850,5867,0,
5751,5855,5868,0,
5865,5853,5869,0,
5828,5856,5870,0,
5858,249,5871,0,
5864,5850,5872,0,
5853,5788,5873,0,
5850,5849,5874,0,
5848,0,5875,2,
5873,0,5876,2,
5866,5863,5877,0,
5851,5867,5878,0,
5868,5825,5879,0,
5832,5870,5880,0,
5874,5854,5881,0,
5872,0,5882,2,
5877,0,5883,2,
5878,5876,5884,0,
5869,5879,5885,0,
5848,5880,5886,0,
5881,0,5887,2,
5847,5882,5888,0,
5875,0,5889,2,
5888,5887,5890,0,
5884,5883,5891,0,
5885,0,5892,2,
5886,0,5893,2,
5886,5848,5894,0,
5890,0,5895,2,
5891,0,5896,2,
5818,5892,5897,0,
5848,5890,5898,0,
5894,0,5899,2,
5885,5890,5900,0,
5900,0,5901,2,
5896,5890,5902,0,
5897,0,5903,2,
5898,5896,5904,0,
228,5899,5905,0,
5818,5895,5906,0,
5818,5901,5907,0,
5904,0,5908,2,
5902,0,5909,2,
5852,5901,5910,0,
5905,0,5911,2,
5906,0,5912,2,
5848,5912,5913,0,
5907,5909,5914,0,
5606,5908,5915,0,
5909,5910,5916,0,
228,216,5917,0,
5913,5903,5918,0,
5909,5907,5919,0,
5914,0,5920,2,
5916,0,5921,2,
5918,0,5922,2,
5919,0,5923,2,
5848,5920,5924,0,
5911,5921,5925,0,
5908,5922,5926,0,
5889,5923,5927,0,
5924,0,5928,2,
5915,5922,5929,0,
5925,0,5930,2,
5927,0,5931,2,
5926,0,5932,2,
5836,5928,5933,0,
5929,0,5934,2,
5806,5928,5935,0,
5857,5928,5936,0,
5859,5928,5937,0,
5838,5928,5938,0,
5860,5928,5939,0,
5733,5931,5940,0,
5771,5931,5941,0,
5688,5931,5942,0,
5686,5931,5943,0,
5736,5931,5944,0,
5772,5931,5945,0,
5687,5931,5946,0,
5685,5931,5947,0,
5737,5931,5948,0,
5734,5931,5949,0,
5648,5931,5950,0,
5917,5932,5951,0,
5738,5931,5952,0,
5871,5931,5953,0,
5808,5931,5954,0,
5807,5931,5955,0,
5839,5931,5956,0,
5735,5931,5957,0,
5770,5931,5958,0,
5766,5931,5959,0,
5861,5931,5960,0,
5862,5931,5961,0,
5842,5931,5962,0,
227,5933,5963,1,
227,5936,5964,1,
227,5937,5965,1,
227,5935,5966,1,
227,5938,5967,1,
5845,5931,5968,0,
1143,5939,5969,1,
228,5954,5970,1,
228,5959,5971,1,
228,5962,5972,1,
228,5956,5973,1,
228,5955,5974,1,
228,5946,5975,1,
228,5945,5976,1,
228,5958,5977,1,
228,5952,5978,1,
228,5957,5979,1,
227,5953,5980,1,
228,5960,5981,1,
228,5961,5982,1,
228,5949,5983,1,
228,5940,5984,1,
228,5943,5985,1,
228,5944,5986,1,
228,5948,5987,1,
228,5947,5988,1,
228,5941,5989,1,
5689,5951,5990,1,
228,5942,5991,1,
228,5950,5992,1,
5968,772,5993,1,
5967,977,5994,1,
5964,1003,5995,1,
5966,917,5996,1,
5965,1040,5997,1,
5963,1095,5998,1,
5207,5934,5999,1,
250,5999,6000,1,
5982,1027,6001,1,
5973,1186,6002,1,
5972,1106,6003,1,
5974,1266,6004,1,
5981,993,6005,1,
5987,2794,6006,1,
5988,3021,6007,1,
5983,2581,6008,1,
5984,3581,6009,1,
5989,3284,6010,1,
5976,2371,6011,1,
5977,1593,6012,1,
5970,1360,6013,1,
5971,1461,6014,1,
5975,2144,6015,1,
5979,1778,6016,1,
5978,1948,6017,1,
5980,771,6018,1,
5991,4474,6019,1,
5992,4794,6020,1,
5986,3859,6021,1,
5985,4149,6022,1,
223,5990,6023,1,
0,0,6024,1,
6024,6023,6025,1,
6024,6000,6026,1,
6024,6020,6027,1,
6024,6019,6028,1,
6024,6022,6029,1,
6024,6021,6030,1,
6024,6009,6031,1,
6024,6010,6032,1,
6024,6007,6033,1,
6024,6006,6034,1,
6024,6008,6035,1,
6024,6011,6036,1,
6024,6015,6037,1,
6024,6017,6038,1,
6024,6016,6039,1,
6024,6012,6040,1,
6024,6014,6041,1,
6024,6013,6042,1,
6024,6004,6043,1,
6024,6002,6044,1,
6024,6003,6045,1,
6024,6001,6046,1,
6024,6005,6047,1,
6024,6018,6048,1,
6024,5993,6049,1,
6024,5996,6050,1,
6024,5994,6051,1,
6024,5995,6052,1,
6024,5997,6053,1,
6024,5998,6054,1,
6024,5969,6055,1,
6024,190,6056,1,
