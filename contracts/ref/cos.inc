24,23,32,0,
30,29,33,0,
22,21,34,1,
34,23,35,0,
22,35,36,1,
20,19,37,1,
37,23,38,0,
20,38,39,1,
23,0,40,2,
7,23,41,0,
5,23,42,0,
19,23,43,0,
7,6,44,1,
44,23,45,0,
7,45,46,1,
22,21,47,1,
47,23,48,0,
22,48,49,1,
21,20,50,1,
50,23,51,0,
21,51,52,1,
22,0,53,2,
6,7,54,1,
54,23,55,0,
6,55,56,1,
4,5,57,1,
57,23,58,0,
4,58,59,1,
8,0,60,2,
25,0,61,2,
27,26,62,0,
19,20,63,1,
63,23,64,0,
19,64,65,1,
20,21,66,1,
66,23,67,0,
20,67,68,1,
5,0,69,2,
21,0,70,2,
6,0,71,2,
0,0,72,2,
16,0,73,2,
4,0,74,2,
1,0,75,2,
3,0,76,2,
7,0,77,2,
17,0,78,2,
2,0,79,2,
19,0,80,2,
18,0,81,2,
20,0,82,2,
12,0,83,2,
13,0,84,2,
15,0,85,2,
14,0,86,2,
11,0,87,2,
9,0,88,2,
10,0,89,2,
29,0,90,2,
24,0,91,2,
30,0,92,2,
27,0,93,2,
28,0,94,2,
26,25,95,0,
28,27,96,0,
4,23,97,0,
26,0,98,2,
6,23,99,0,
40,24,100,1,
32,0,101,2,
39,0,102,2,
36,0,103,2,
6,40,104,0,
8,40,105,0,
41,0,106,2,
42,0,107,2,
4,40,108,0,
23,53,109,0,
77,60,110,1,
110,23,111,0,
77,111,112,1,
5,40,113,0,
61,26,114,1,
90,30,115,1,
98,27,116,1,
53,70,117,0,
69,77,118,0,
75,79,119,0,
76,74,120,0,
73,78,121,0,
81,80,122,0,
71,72,123,0,
86,85,124,0,
60,88,125,0,
83,84,126,0,
89,87,127,0,
90,92,128,0,
40,91,129,0,
93,94,130,0,
61,98,131,0,
96,95,132,0,
33,32,133,0,
99,0,134,2,
97,0,135,2,
94,29,136,1,
93,28,137,1,
25,101,138,0,
101,25,139,1,
132,133,140,0,
136,0,141,2,
100,40,142,0,
100,23,143,1,
100,0,144,2,
23,100,145,0,
113,0,146,2,
104,0,147,2,
105,0,148,2,
108,0,149,2,
109,0,150,2,
59,100,151,0,
137,0,152,2,
116,0,153,2,
65,100,154,0,
68,100,155,0,
117,82,156,0,
120,118,157,0,
121,122,158,0,
123,119,159,0,
125,127,160,0,
126,124,161,0,
129,131,162,0,
130,128,163,0,
114,0,164,2,
112,0,165,2,
138,0,166,2,
25,164,167,0,
143,0,168,2,
26,153,169,0,
144,40,170,0,
144,23,171,0,
0,142,172,0,
1,145,173,0,
147,107,174,0,
139,0,175,2,
148,106,176,0,
4,145,177,0,
135,146,178,0,
3,142,179,0,
145,139,180,0,
139,107,181,0,
3,145,182,0,
2,142,183,0,
139,145,184,1,
0,145,185,0,
8,142,186,0,
9,145,187,0,
12,142,188,0,
13,145,189,0,
144,56,190,0,
13,142,191,0,
14,145,192,0,
17,145,193,0,
16,142,194,0,
151,0,195,2,
165,144,196,0,
27,152,197,0,
10,145,198,0,
9,142,199,0,
10,142,200,0,
11,145,201,0,
11,142,202,0,
15,142,203,0,
12,145,204,0,
16,145,205,0,
14,142,206,0,
15,145,207,0,
155,0,208,2,
154,0,209,2,
146,134,210,0,
56,59,211,1,
211,144,212,0,
56,212,213,1,
158,156,214,0,
159,157,215,0,
161,160,216,0,
162,163,217,0,
18,145,218,0,
17,142,219,0,
140,0,220,2,
19,145,221,0,
18,142,222,0,
2,145,223,0,
27,153,224,0,
141,28,225,0,
1,142,226,0,
21,142,227,0,
144,65,228,0,
114,166,229,0,
167,101,230,0,
103,102,231,1,
231,168,232,0,
103,232,233,1,
0,171,234,0,
170,2,235,0,
3,171,236,0,
168,0,237,2,
168,40,238,0,
173,0,239,2,
172,0,240,2,
168,23,241,0,
2,171,242,0,
170,1,243,0,
174,0,244,2,
177,0,245,2,
179,0,246,2,
176,0,247,2,
178,0,248,2,
168,49,249,0,
1,171,250,0,
170,0,251,0,
182,0,252,2,
183,0,253,2,
168,46,254,0,
184,0,255,2,
150,52,256,1,
256,168,257,0,
150,257,258,1,
0,180,259,0,
168,150,260,0,
23,49,261,1,
261,168,262,0,
23,262,263,1,
10,170,264,0,
11,171,265,0,
186,0,266,2,
187,0,267,2,
189,0,268,2,
188,0,269,2,
190,0,270,2,
11,170,271,0,
12,171,272,0,
192,0,273,2,
191,0,274,2,
15,171,275,0,
14,170,276,0,
193,0,277,2,
194,0,278,2,
210,0,279,2,
227,0,280,2,
228,0,281,2,
3,170,282,0,
4,171,283,0,
226,0,284,2,
8,170,285,0,
9,171,286,0,
18,170,287,0,
171,19,288,0,
18,171,289,0,
17,170,290,0,
10,171,291,0,
9,170,292,0,
14,171,293,0,
13,170,294,0,
202,0,295,2,
203,0,296,2,
204,0,297,2,
12,170,298,0,
13,171,299,0,
200,0,300,2,
201,0,301,2,
205,0,302,2,
206,0,303,2,
207,0,304,2,
210,112,305,1,
305,100,306,0,
210,306,307,1,
215,214,308,0,
15,170,309,0,
16,171,310,0,
219,0,311,2,
218,0,312,2,
16,170,313,0,
17,171,314,0,
223,0,315,2,
196,0,316,2,
199,0,317,2,
198,0,318,2,
224,0,319,2,
222,0,320,2,
221,0,321,2,
279,100,322,0,
229,0,323,2,
320,321,324,0,
230,0,325,2,
137,319,326,0,
23,237,327,0,
236,0,328,2,
235,0,329,2,
237,40,330,0,
241,8,331,0,
20,237,332,0,
238,13,333,0,
241,13,334,0,
238,14,335,0,
240,239,336,0,
238,10,337,0,
238,9,338,0,
241,12,339,0,
241,9,340,0,
238,18,341,0,
241,17,342,0,
242,0,343,2,
238,16,344,0,
238,2,345,0,
241,15,346,0,
243,0,347,2,
241,16,348,0,
43,237,349,0,
238,17,350,0,
238,1,351,0,
241,14,352,0,
238,15,353,0,
46,248,354,1,
354,168,355,0,
46,355,356,1,
241,18,357,0,
238,19,358,0,
246,245,359,0,
244,237,360,0,
247,244,361,1,
361,168,362,0,
247,362,363,1,
241,10,364,0,
238,11,365,0,
238,4,366,0,
168,247,367,0,
251,0,368,2,
250,0,369,2,
52,237,370,0,
249,0,371,2,
254,0,372,2,
248,237,373,0,
238,3,374,0,
253,252,375,0,
255,258,376,0,
265,0,377,2,
264,0,378,2,
266,267,379,0,
269,268,380,0,
271,0,381,2,
272,0,382,2,
274,273,383,0,
276,0,384,2,
275,0,385,2,
278,277,386,0,
292,0,387,2,
288,0,388,2,
285,0,389,2,
291,0,390,2,
294,0,391,2,
293,0,392,2,
290,0,393,2,
287,0,394,2,
286,0,395,2,
289,0,396,2,
298,0,397,2,
300,301,398,0,
299,0,399,2,
296,302,400,0,
295,297,401,0,
303,304,402,0,
233,0,403,2,
307,0,404,2,
308,216,405,0,
309,0,406,2,
310,0,407,2,
313,0,408,2,
314,0,409,2,
311,312,410,0,
282,0,411,2,
283,0,412,2,
317,318,413,0,
234,0,414,2,
241,11,415,0,
238,12,416,0,
281,280,417,0,
233,0,418,2,
62,323,419,0,
409,408,420,0,
325,323,421,0,
169,323,422,0,
327,11,423,0,
327,3,424,0,
330,12,425,0,
330,11,426,0,
327,2,427,0,
330,4,428,0,
327,15,429,0,
330,16,430,0,
330,15,431,0,
328,329,432,0,
327,14,433,0,
330,3,434,0,
327,10,435,0,
337,0,436,2,
338,0,437,2,
331,0,438,2,
327,17,439,0,
340,0,440,2,
333,0,441,2,
336,175,442,0,
330,18,443,0,
334,0,444,2,
339,0,445,2,
335,0,446,2,
330,19,447,0,
327,18,448,0,
332,40,449,0,
343,347,450,0,
350,0,451,2,
344,0,452,2,
327,12,453,0,
348,0,454,2,
346,0,455,2,
327,16,456,0,
345,0,457,2,
330,13,458,0,
330,17,459,0,
327,8,460,0,
330,9,461,0,
342,0,462,2,
330,10,463,0,
349,0,464,2,
327,9,465,0,
351,0,466,2,
341,0,467,2,
365,0,468,2,
366,0,469,2,
364,0,470,2,
358,0,471,2,
357,0,472,2,
353,0,473,2,
356,0,474,2,
363,0,475,2,
360,0,476,2,
352,0,477,2,
369,368,478,0,
370,0,479,2,
367,0,480,2,
371,184,481,0,
418,241,482,1,
482,184,483,0,
418,483,484,1,
373,0,485,2,
374,0,486,2,
336,0,487,2,
379,270,488,0,
377,378,489,0,
382,381,490,0,
385,384,491,0,
327,13,492,0,
417,0,493,2,
415,0,494,2,
416,0,495,2,
26,323,496,0,
330,14,497,0,
315,414,498,0,
396,393,499,0,
395,389,500,0,
388,394,501,0,
390,387,502,0,
392,391,503,0,
399,397,504,0,
326,0,505,2,
217,405,506,0,
407,406,507,0,
413,316,508,0,
412,411,509,0,
322,0,510,2,
419,0,511,2,
507,410,512,0,
421,0,513,2,
422,0,514,2,
426,0,515,2,
427,0,516,2,
435,0,517,2,
433,0,518,2,
425,0,519,2,
432,149,520,0,
424,0,521,2,
432,144,522,0,
431,0,523,2,
428,0,524,2,
423,0,525,2,
434,0,526,2,
430,0,527,2,
429,0,528,2,
438,437,529,0,
448,0,530,2,
445,441,531,0,
447,0,532,2,
443,0,533,2,
439,0,534,2,
449,0,535,2,
444,446,536,0,
442,0,537,2,
440,436,538,0,
454,451,539,0,
456,0,540,2,
453,0,541,2,
467,462,542,0,
455,452,543,0,
463,0,544,2,
465,0,545,2,
450,359,546,0,
458,0,547,2,
459,0,548,2,
461,0,549,2,
460,0,550,2,
476,469,551,0,
470,468,552,0,
477,473,553,0,
472,471,554,0,
481,0,555,2,
478,375,556,0,
485,486,557,0,
489,380,558,0,
488,0,559,2,
490,383,560,0,
508,0,561,2,
432,195,562,0,
491,386,563,0,
498,284,564,0,
496,0,565,2,
501,208,566,0,
502,401,567,0,
500,398,568,0,
503,400,569,0,
499,209,570,0,
504,402,571,0,
28,505,572,0,
506,0,573,2,
509,510,574,0,
497,0,575,2,
494,495,576,0,
492,0,577,2,
420,324,578,0,
578,0,579,2,
326,511,580,0,
116,565,581,0,
572,0,582,2,
512,0,583,2,
517,515,584,0,
521,524,585,0,
518,523,586,0,
522,0,587,2,
516,526,588,0,
520,181,589,0,
528,527,590,0,
513,180,591,1,
525,519,592,0,
535,464,593,0,
530,532,594,0,
534,533,595,0,
545,544,596,0,
550,549,597,0,
540,548,598,0,
546,0,599,2,
541,547,600,0,
551,0,601,2,
554,479,602,0,
564,0,603,2,
556,0,604,2,
557,0,605,2,
558,0,606,2,
560,0,607,2,
574,0,608,2,
563,0,609,2,
562,0,610,2,
567,0,611,2,
570,0,612,2,
569,0,613,2,
568,0,614,2,
566,0,615,2,
571,0,616,2,
180,513,617,0,
577,575,618,0,
573,220,619,0,
580,0,620,2,
213,604,621,1,
621,175,622,0,
213,622,623,1,
618,576,624,0,
581,0,625,2,
617,0,626,2,
589,0,627,2,
587,537,628,0,
590,536,629,0,
585,457,630,0,
586,531,631,0,
592,538,632,0,
588,466,633,0,
584,529,634,0,
591,0,635,2,
594,539,636,0,
593,542,637,0,
595,543,638,0,
597,372,639,0,
598,553,640,0,
600,552,641,0,
599,185,642,1,
642,175,643,0,
599,643,644,1,
596,480,645,0,
602,0,646,2,
608,603,647,1,
647,175,648,0,
608,648,649,1,
614,213,650,1,
650,175,651,0,
614,651,652,1,
611,404,653,1,
653,175,654,0,
611,654,655,1,
404,599,656,1,
656,175,657,0,
404,657,658,1,
582,511,659,0,
225,620,660,0,
514,625,661,0,
474,633,662,1,
662,255,663,0,
474,663,664,1,
631,634,665,1,
665,255,666,0,
631,666,667,1,
475,630,668,1,
668,255,669,0,
475,669,670,1,
628,627,671,0,
629,632,672,1,
672,255,673,0,
629,673,674,1,
624,0,675,2,
637,255,676,0,
631,0,677,2,
636,0,678,2,
638,0,679,2,
641,0,680,2,
640,0,681,2,
632,0,682,2,
645,0,683,2,
639,0,684,2,
634,0,685,2,
260,646,686,1,
686,255,687,0,
260,687,688,1,
637,0,689,2,
629,0,690,2,
649,513,691,0,
255,635,692,0,
659,136,693,0,
197,625,694,0,
660,0,695,2,
661,0,696,2,
661,626,697,0,
674,670,698,1,
698,635,699,0,
674,699,700,1,
671,513,701,0,
667,664,702,1,
702,635,703,0,
667,703,704,1,
676,0,705,2,
258,678,706,1,
706,255,707,0,
258,707,708,1,
263,689,709,1,
709,255,710,0,
263,710,711,1,
403,679,712,1,
712,255,713,0,
403,713,714,1,
572,692,715,0,
693,0,716,2,
694,0,717,2,
695,716,718,0,
697,591,719,0,
697,0,720,2,
697,635,721,0,
704,0,722,2,
700,0,723,2,
421,696,724,0,
717,620,725,0,
715,241,726,0,
29,716,727,0,
696,513,728,0,
718,0,729,2,
719,184,730,0,
719,255,731,0,
720,635,732,0,
728,0,733,2,
726,0,734,2,
115,727,735,1,
725,0,736,2,
729,736,737,0,
735,0,738,2,
725,733,739,0,
737,738,740,0,
739,255,741,0,
739,735,742,0,
739,184,743,0,
724,740,744,0,
742,718,745,0,
728,740,746,0,
740,696,747,0,
661,740,748,0,
743,735,749,0,
741,735,750,0,
744,139,751,0,
731,745,752,0,
744,175,753,0,
746,175,754,0,
718,750,755,0,
732,745,756,0,
749,718,757,0,
730,745,758,0,
745,697,759,0,
701,747,760,0,
746,139,761,0,
746,644,762,0,
259,746,763,0,
747,691,764,0,
671,744,765,0,
748,513,766,0,
719,745,767,0,
180,746,768,0,
691,748,769,0,
259,744,770,0,
744,649,771,0,
701,748,772,0,
744,655,773,0,
744,658,774,0,
746,658,775,0,
744,623,776,0,
746,655,777,0,
744,644,778,0,
746,652,779,0,
746,623,780,0,
744,652,781,0,
754,579,782,0,
603,751,783,0,
721,755,784,0,
758,678,785,0,
752,675,786,0,
758,679,787,0,
757,721,788,0,
752,677,789,0,
756,555,790,0,
756,484,791,0,
762,0,792,2,
760,0,793,2,
752,680,794,0,
756,255,795,0,
761,604,796,0,
761,603,797,0,
758,681,798,0,
756,376,799,0,
759,723,800,0,
759,722,801,0,
756,688,802,0,
761,487,803,0,
752,690,804,0,
758,689,805,0,
756,708,806,0,
763,0,807,2,
764,0,808,2,
754,559,809,0,
752,263,810,0,
765,0,811,2,
761,606,812,0,
758,646,813,0,
752,681,814,0,
761,583,815,0,
753,608,816,0,
766,139,817,0,
759,635,818,0,
754,607,819,0,
751,559,820,0,
754,606,821,0,
751,561,822,0,
761,609,823,0,
753,610,824,0,
766,623,825,0,
780,0,826,2,
781,0,827,2,
751,604,828,0,
754,611,829,0,
761,612,830,0,
754,613,831,0,
752,260,832,0,
761,615,833,0,
753,559,834,0,
259,766,835,0,
754,614,836,0,
754,609,837,0,
754,561,838,0,
761,559,839,0,
752,241,840,0,
754,610,841,0,
761,144,842,0,
766,644,843,0,
761,607,844,0,
761,616,845,0,
761,613,846,0,
767,708,847,0,
753,614,848,0,
761,142,849,0,
771,0,850,2,
770,0,851,2,
767,711,852,0,
751,487,853,0,
772,0,854,2,
751,606,855,0,
751,616,856,0,
775,0,857,2,
753,561,858,0,
754,616,859,0,
776,0,860,2,
774,0,861,2,
767,484,862,0,
773,0,863,2,
751,607,864,0,
583,754,865,0,
376,767,866,0,
777,0,867,2,
778,0,868,2,
768,0,869,2,
779,0,870,2,
761,561,871,0,
767,688,872,0,
767,714,873,0,
754,608,874,0,
22,768,875,0,
761,493,876,0,
761,579,877,0,
769,0,878,2,
782,0,879,2,
783,0,880,2,
877,0,881,2,
784,356,882,0,
784,363,883,0,
784,601,884,0,
788,683,885,0,
788,685,886,0,
789,0,887,2,
791,0,888,2,
788,682,889,0,
790,705,890,0,
786,0,891,2,
788,684,892,0,
787,0,893,2,
785,0,894,2,
800,0,895,2,
796,0,896,2,
799,0,897,2,
798,0,898,2,
784,605,899,0,
797,0,900,2,
794,0,901,2,
795,263,902,0,
801,0,903,2,
802,0,904,2,
805,0,905,2,
804,0,906,2,
806,0,907,2,
803,0,908,2,
788,680,909,0,
784,690,910,0,
784,684,911,0,
788,689,912,0,
809,0,913,2,
795,260,914,0,
810,0,915,2,
814,0,916,2,
813,0,917,2,
812,0,918,2,
784,677,919,0,
788,678,920,0,
817,603,921,0,
818,688,922,0,
819,0,923,2,
817,487,924,0,
815,0,925,2,
818,711,926,0,
816,0,927,2,
822,0,928,2,
820,0,929,2,
821,0,930,2,
824,0,931,2,
823,0,932,2,
784,260,933,0,
875,0,934,2,
876,0,935,2,
788,675,936,0,
873,0,937,2,
874,0,938,2,
784,675,939,0,
788,679,940,0,
828,0,941,2,
784,685,942,0,
784,681,943,0,
784,682,944,0,
788,690,945,0,
830,0,946,2,
376,818,947,0,
840,0,948,2,
836,0,949,2,
839,0,950,2,
818,714,951,0,
841,0,952,2,
818,708,953,0,
842,68,954,0,
835,0,955,2,
838,0,956,2,
832,0,957,2,
788,646,958,0,
788,677,959,0,
784,263,960,0,
831,0,961,2,
833,0,962,2,
837,0,963,2,
834,0,964,2,
829,0,965,2,
855,0,966,2,
848,0,967,2,
849,22,968,0,
843,0,969,2,
844,0,970,2,
784,683,971,0,
784,680,972,0,
788,681,973,0,
853,0,974,2,
852,0,975,2,
817,604,976,0,
847,0,977,2,
845,0,978,2,
846,0,979,2,
859,0,980,2,
856,0,981,2,
862,0,982,2,
864,0,983,2,
858,0,984,2,
871,0,985,2,
872,0,986,2,
818,484,987,0,
825,0,988,2,
865,0,989,2,
866,0,990,2,
867,868,991,0,
880,985,992,0,
884,0,993,2,
883,0,994,2,
882,0,995,2,
890,0,996,2,
887,792,997,0,
889,0,998,2,
885,0,999,2,
892,0,1000,2,
893,891,1001,0,
886,0,1002,2,
901,900,1003,0,
899,0,1004,2,
903,807,1005,0,
902,0,1006,2,
906,905,1007,0,
909,0,1008,2,
911,0,1009,2,
910,0,1010,2,
912,0,1011,2,
914,0,1012,2,
811,915,1013,0,
916,917,1014,0,
919,0,1015,2,
920,0,1016,2,
991,990,1017,0,
921,0,1018,2,
926,0,1019,2,
924,0,1020,2,
925,923,1021,0,
922,0,1022,2,
930,929,1023,0,
987,0,1024,2,
935,934,1025,0,
939,0,1026,2,
870,982,1027,0,
940,0,1028,2,
943,0,1029,2,
942,0,1030,2,
944,0,1031,2,
945,0,1032,2,
954,0,1033,2,
961,946,1034,0,
964,854,1035,0,
963,962,1036,0,
960,0,1037,2,
950,952,1038,0,
949,948,1039,0,
951,0,1040,2,
958,0,1041,2,
953,0,1042,2,
965,955,1043,0,
959,0,1044,2,
850,957,1045,0,
947,0,1046,2,
973,0,1047,2,
975,974,1048,0,
972,0,1049,2,
857,977,1050,0,
971,0,1051,2,
976,0,1052,2,
968,0,1053,2,
826,937,1054,0,
936,0,1055,2,
933,0,1056,2,
983,984,1057,0,
869,1053,1058,0,
992,938,1059,0,
980,1052,1060,0,
994,793,1061,0,
888,993,1062,0,
894,995,1063,0,
1000,898,1064,0,
997,1002,1065,0,
1001,896,1066,0,
996,895,1067,0,
1003,1004,1068,0,
1005,907,1069,0,
1008,808,1070,0,
1010,913,1071,0,
1013,1011,1072,0,
1015,1016,1073,0,
927,1018,1074,0,
1021,1022,1075,0,
1019,1020,1076,0,
1023,932,1077,0,
1047,1049,1078,0,
878,1056,1079,0,
1028,941,1080,0,
1027,1026,1081,0,
1014,1009,1082,0,
1031,1032,1083,0,
1029,956,1084,0,
851,1030,1085,0,
1007,998,1086,0,
1040,860,1087,0,
1039,978,1088,0,
1045,1041,1089,0,
1042,861,1090,0,
1043,979,1091,0,
1036,1037,1092,0,
1035,966,1093,0,
1034,969,1094,0,
1046,863,1095,0,
1033,967,1096,0,
1024,827,1097,0,
1057,989,1098,0,
734,1051,1099,0,
1081,1080,1100,0,
1059,986,1101,0,
1094,1095,1102,0,
1062,999,1103,0,
1061,998,1104,0,
1063,897,1105,0,
1067,908,1106,0,
1064,904,1107,0,
1069,1068,1108,0,
1070,1009,1109,0,
1071,918,1110,0,
1069,0,1111,2,
1017,1073,1112,0,
1074,928,1113,0,
1076,931,1114,0,
1093,1092,1115,0,
1091,1090,1116,0,
1096,981,1117,0,
1070,1012,1118,0,
1061,1006,1119,0,
1083,1038,1120,0,
1082,1086,1121,0,
1085,1044,1122,0,
1084,970,1123,0,
1099,1055,1124,0,
1025,1079,1125,0,
1060,881,1126,0,
1058,879,1127,0,
1088,1087,1128,0,
1078,1101,1129,0,
1048,1120,1130,0,
1098,1125,1131,0,
1104,1006,1132,0,
1066,1103,1133,0,
1065,1105,1134,0,
1068,1107,1135,0,
1106,1069,1136,0,
1124,1054,1137,0,
1109,1012,1138,0,
1072,1110,1139,0,
1106,0,1140,2,
1112,0,1141,2,
1113,1075,1142,0,
1116,0,1143,2,
1126,1097,1144,0,
1114,1077,1145,0,
1089,1123,1146,0,
1122,1050,1147,0,
1127,988,1148,0,
1115,0,1149,2,
1112,1100,1150,0,
1128,0,1151,2,
1119,1118,1152,0,
1100,0,1153,2,
1128,1116,1154,0,
1102,0,1155,2,
1129,1130,1156,0,
1147,0,1157,2,
1131,1115,1158,0,
1107,1134,1159,0,
1132,1007,1160,0,
1133,1134,1161,0,
1108,1133,1162,0,
1135,1136,1163,0,
1147,1130,1164,0,
1137,1147,1165,0,
1136,0,1166,2,
1134,0,1167,2,
1137,0,1168,2,
1133,0,1169,2,
1131,1111,1170,0,
1135,0,1171,2,
1138,1014,1172,0,
1129,0,1173,2,
1139,0,1174,2,
1130,0,1175,2,
1146,0,1176,2,
1154,1146,1177,0,
1146,1128,1178,0,
1142,0,1179,2,
1144,0,1180,2,
1145,0,1181,2,
1150,1139,1182,0,
1142,1145,1183,0,
1144,1102,1184,0,
1117,1148,1185,0,
1152,1121,1186,0,
1156,1165,1187,0,
1163,1186,1188,0,
1161,1112,1189,0,
1160,1161,1190,0,
1159,1106,1191,0,
1163,1133,1192,0,
1164,1137,1193,0,
1160,0,1194,2,
1163,0,1195,2,
1131,1166,1196,0,
1140,1170,1197,1,
1131,1185,1198,1,
1182,1145,1199,0,
1161,1186,1200,0,
1183,1182,1201,0,
1158,1102,1202,0,
1177,1187,1203,0,
1200,1163,1204,0,
1187,1182,1205,0,
1190,1163,1206,0,
1189,1188,1207,0,
1187,1100,1208,0,
1191,1162,1209,0,
1192,0,1210,2,
1131,1195,1211,0,
1171,1196,1212,1,
1197,0,1213,2,
1069,1197,1214,0,
1144,1201,1215,0,
1184,1201,1216,0,
1203,1204,1217,0,
1204,1187,1218,0,
1205,1204,1219,0,
1209,0,1220,2,
1207,0,1221,2,
1206,0,1222,2,
1208,0,1223,2,
1204,1165,1224,0,
1131,1210,1225,0,
1193,1204,1226,0,
1204,0,1227,2,
1169,1211,1228,1,
1208,1204,1229,0,
1204,1177,1230,0,
1212,0,1231,2,
1069,1213,1232,0,
1204,1137,1233,0,
1216,1217,1234,0,
1218,0,1235,2,
1215,1217,1236,0,
1131,1222,1237,0,
1131,1221,1238,0,
1131,1223,1239,0,
1131,1220,1240,0,
1131,1227,1241,0,
1167,1225,1242,1,
1226,0,1243,2,
1224,0,1244,2,
1229,0,1245,2,
1219,0,1246,2,
1217,1199,1247,0,
1219,1178,1248,0,
1217,1201,1249,0,
1230,1205,1250,0,
1228,1231,1251,1,
1197,1231,1252,1,
1219,1146,1253,0,
1233,0,1254,2,
1234,0,1255,2,
1236,0,1256,2,
1239,0,1257,2,
1238,0,1258,2,
1194,1240,1259,1,
1131,1254,1260,0,
1237,0,1261,2,
1131,1244,1262,0,
1131,1243,1263,0,
1168,1241,1264,1,
1131,1245,1265,0,
1228,1242,1266,0,
1246,1131,1267,0,
1248,0,1268,2,
1247,0,1269,2,
1250,0,1270,2,
1249,0,1271,2,
1242,0,1272,2,
1251,0,1273,2,
1252,0,1274,2,
1252,1111,1275,0,
1253,0,1276,2,
1236,1202,1277,0,
1131,1235,1278,0,
1153,1278,1279,1,
1131,1255,1280,0,
1157,1260,1281,1,
1175,1262,1282,1,
1242,1259,1283,0,
1261,1172,1284,1,
1257,1258,1285,0,
1173,1263,1286,1,
1264,1259,1287,0,
1228,1259,1288,0,
1264,1212,1289,0,
1197,1264,1290,0,
1141,1265,1291,1,
1228,1264,1292,0,
1242,1264,1293,0,
1176,1267,1294,1,
1131,1268,1295,0,
1131,1269,1296,0,
1131,1270,1297,0,
1131,1271,1298,0,
1259,0,1299,2,
1228,1272,1300,1,
1264,0,1301,2,
1274,1111,1302,0,
1232,1274,1303,0,
1131,1276,1304,0,
1277,0,1305,2,
1131,1256,1306,0,
1149,1280,1307,1,
1155,1306,1308,1,
1284,1212,1309,0,
1283,0,1310,2,
1197,1281,1311,0,
1174,1285,1312,1,
1288,0,1313,2,
1212,1279,1314,0,
1259,1289,1315,1,
1242,1284,1316,0,
1228,1284,1317,0,
1264,1282,1318,0,
1287,0,1319,2,
1286,1212,1320,0,
1282,1281,1321,0,
1290,0,1322,2,
1284,1286,1323,0,
1282,1212,1324,0,
1242,1281,1325,0,
1284,1281,1326,0,
1281,1212,1327,0,
1228,1291,1328,0,
1228,1282,1329,0,
1259,1279,1330,0,
1284,1264,1331,0,
1197,1282,1332,0,
1212,1291,1333,0,
1228,1281,1334,0,
1284,1259,1335,0,
1197,1279,1336,0,
1197,1286,1337,0,
1292,1197,1338,0,
1242,1291,1339,0,
1264,1286,1340,0,
1264,1281,1341,0,
1264,1279,1342,0,
1281,1259,1343,0,
1284,1282,1344,0,
1242,1286,1345,0,
1286,1281,1346,0,
1242,1282,1347,0,
1287,1212,1348,0,
1228,1286,1349,0,
1228,1279,1350,0,
1293,1197,1351,0,
1286,1259,1352,0,
1197,1291,1353,0,
1282,1259,1354,0,
1282,1279,1355,0,
1286,1279,1356,0,
1284,1279,1357,0,
1284,1291,1358,0,
1286,1291,1359,0,
1242,1279,1360,0,
1281,1279,1361,0,
1212,1294,1362,0,
1259,1291,1363,0,
1281,1291,1364,0,
1286,1282,1365,0,
1264,1291,1366,0,
1197,1294,1367,0,
1228,1294,1368,0,
1242,1294,1369,0,
1284,1294,1370,0,
1282,1291,1371,0,
1264,1294,1372,0,
1259,1294,1373,0,
1279,0,1374,2,
1281,1294,1375,0,
1282,1294,1376,0,
1291,1279,1377,0,
1286,1294,1378,0,
1143,1295,1379,1,
1179,1296,1380,1,
1181,1297,1381,1,
1180,1298,1382,1,
1291,0,1383,2,
1279,1294,1384,0,
1281,0,1385,2,
1291,1294,1386,0,
1242,1299,1387,1,
1284,1299,1388,1,
1300,0,1389,2,
1284,1301,1390,1,
1294,0,1391,2,
1282,0,1392,2,
1151,1304,1393,1,
1282,0,1394,2,
1307,0,1395,2,
1282,1385,1396,1,
1286,1374,1397,1,
1379,1381,1398,0,
1308,0,1399,2,
1307,1393,1400,0,
1312,0,1401,2,
1310,1311,1402,1,
1309,0,1403,2,
1316,0,1404,2,
1321,0,1405,2,
1315,0,1406,2,
1318,0,1407,2,
1264,1314,1408,1,
1319,1320,1409,1,
1288,1309,1410,0,
1309,1197,1411,0,
1316,1197,1412,0,
1326,0,1413,2,
1284,1324,1414,1,
1311,1283,1415,0,
1292,1332,1416,1,
1338,1282,1417,0,
1342,0,1418,2,
1293,1337,1419,1,
1318,1286,1420,0,
1286,1394,1421,0,
1316,1327,1422,0,
1309,1282,1423,0,
1351,1286,1424,0,
1320,1287,1425,0,
1356,0,1426,2,
1355,0,1427,2,
1359,0,1428,2,
1346,1342,1429,0,
1342,1212,1430,0,
1326,1212,1431,0,
1365,0,1432,2,
1371,1372,1433,1,
1371,1294,1434,0,
1291,1374,1435,0,
1355,1281,1436,0,
1377,0,1437,2,
1379,0,1438,2,
1380,0,1439,2,
1384,0,1440,2,
1387,0,1441,2,
1264,1385,1442,1,
1383,1279,1443,0,
1388,0,1444,2,
1389,1251,1445,0,
1390,0,1446,2,
1387,1273,1447,0,
1312,1391,1448,1,
1312,1294,1449,0,
1291,1312,1450,1,
1393,0,1451,2,
1382,1380,1452,0,
1381,0,1453,2,
1286,1392,1454,1,
1382,0,1455,2,
1397,0,1456,2,
1395,1393,1457,0,
1307,1451,1458,0,
1454,0,1459,2,
1442,1444,1460,0,
1382,1439,1461,0,
1400,1399,1462,0,
1396,0,1463,2,
1313,1403,1464,0,
1242,1401,1465,0,
1402,1317,1466,1,
1212,1401,1467,0,
1402,0,1468,2,
1282,1405,1469,0,
1408,1349,1470,1,
1407,1323,1471,1,
1409,1325,1472,1,
1404,1327,1473,1,
1414,1334,1474,1,
1409,0,1475,2,
1413,1333,1476,1,
1411,1259,1477,0,
1412,0,1478,2,
1284,1401,1479,0,
1415,0,1480,2,
1228,1401,1481,0,
1417,0,1482,2,
1418,1346,1483,1,
1349,1408,1484,0,
1334,1414,1485,0,
1286,1401,1486,0,
1197,1401,1487,0,
1259,1401,1488,0,
1347,1401,1489,0,
1281,1401,1490,0,
1420,1284,1491,0,
1327,1401,1492,0,
1264,1401,1493,0,
1282,1401,1494,0,
1424,0,1495,2,
1427,1364,1496,1,
1279,1426,1497,0,
1410,0,1498,2,
1429,0,1499,2,
1431,1291,1500,0,
1359,1401,1501,0,
1401,1279,1502,0,
1434,1264,1503,0,
1436,1291,1504,0,
1395,1451,1505,0,
1438,1381,1506,0,
1401,1383,1507,0,
1400,1308,1508,0,
1452,1398,1509,0,
1401,1291,1510,0,
1441,1251,1511,0,
1442,0,1512,2,
1441,1273,1513,0,
1435,0,1514,2,
1443,0,1515,2,
1388,1446,1516,0,
1447,0,1517,2,
1448,0,1518,2,
1450,0,1519,2,
1455,1380,1520,0,
1438,1453,1521,0,
1379,1453,1522,0,
1401,1294,1523,0,
1455,1439,1524,0,
1456,1396,1525,0,
1457,1399,1526,0,
1456,1463,1527,0,
1458,1308,1528,0,
1452,1522,1529,0,
1524,1506,1530,0,
1521,1461,1531,0,
1458,1399,1532,0,
1397,1463,1533,0,
1322,1464,1534,1,
1465,0,1535,2,
1466,1406,1536,1,
1464,0,1537,2,
1281,1467,1538,1,
1472,1329,1539,1,
1317,1468,1540,0,
1473,0,1541,2,
1471,1330,1542,1,
1470,1331,1543,1,
1475,1281,1544,0,
1476,1354,1545,1,
1478,1310,1546,0,
1472,0,1547,2,
1477,0,1548,2,
1473,1416,1549,1,
1474,1335,1550,1,
1471,0,1551,2,
1466,0,1552,2,
1476,0,1553,2,
1479,0,1554,2,
1483,0,1555,2,
1331,1470,1556,0,
1335,1474,1557,0,
1483,1358,1558,1,
1490,0,1559,2,
1486,1284,1560,0,
1485,0,1561,2,
1491,0,1562,2,
1484,0,1563,2,
1489,0,1564,2,
1496,1493,1565,1,
1428,1494,1566,1,
1486,0,1567,2,
1501,1282,1568,0,
1502,1281,1569,0,
1496,0,1570,2,
1503,0,1571,2,
1504,0,1572,2,
1435,1486,1573,0,
1502,0,1574,2,
1502,1294,1575,0,
1398,1461,1576,0,
1505,1308,1577,0,
1452,1521,1578,0,
1457,1308,1579,0,
1452,1506,1580,0,
1461,1522,1581,0,
1520,1522,1582,0,
1524,1522,1583,0,
1506,1461,1584,0,
1524,1521,1585,0,
1521,1520,1586,0,
1520,1506,1587,0,
1398,1520,1588,0,
1505,1399,1589,0,
1507,1384,1590,0,
1440,1507,1591,1,
1510,0,1592,2,
1509,1508,1593,0,
1524,1398,1594,0,
1509,1462,1595,0,
1509,0,1596,2,
1512,1444,1597,0,
1511,1300,1598,0,
1513,0,1599,2,
1460,0,1600,2,
1515,1514,1601,0,
1512,1388,1602,0,
1459,1396,1603,0,
1523,0,1604,2,
1525,1454,1605,0,
1526,1529,1606,0,
1529,1462,1607,0,
1530,1508,1608,0,
1531,1532,1609,0,
1602,1390,1610,0,
1535,1469,1611,1,
1538,1328,1612,1,
1266,1534,1613,0,
1290,1537,1614,0,
1534,1266,1615,1,
1536,1410,1616,1,
1540,0,1617,2,
1542,0,1618,2,
1539,1336,1619,1,
1542,1339,1620,1,
1541,1416,1621,0,
1539,0,1622,2,
1543,1343,1623,1,
1545,1345,1624,1,
1546,1548,1625,0,
1549,0,1626,2,
1550,1419,1627,1,
1549,1348,1628,1,
1545,0,1629,2,
1544,1242,1630,0,
1329,1547,1631,0,
1550,1419,1632,0,
1554,1421,1633,1,
1354,1553,1634,0,
1328,1538,1635,0,
1552,1315,1636,0,
1330,1551,1637,0,
1557,0,1638,2,
1358,1555,1639,0,
1558,1488,1640,1,
1556,0,1641,2,
1558,0,1642,2,
1560,0,1643,2,
1564,1405,1644,0,
1559,1497,1645,1,
1343,1543,1646,0,
1565,1370,1647,1,
1566,0,1648,2,
1565,0,1649,2,
1567,1435,1650,1,
1568,0,1651,2,
1569,0,1652,2,
1493,1570,1653,0,
1566,1375,1654,1,
1573,0,1655,2,
1574,1378,1656,1,
1575,1286,1657,0,
1577,1576,1658,0,
1577,1529,1659,0,
1579,1580,1660,0,
1579,1578,1661,0,
1578,1528,1662,0,
1526,1588,1663,0,
1584,1508,1664,0,
1588,1528,1665,0,
1526,1578,1666,0,
1579,1588,1667,0,
1576,1532,1668,0,
1585,1508,1669,0,
1508,1588,1670,0,
1586,1508,1671,0,
1531,1462,1672,0,
1576,1508,1673,0,
1577,1582,1674,0,
1532,1587,1675,0,
1578,1508,1676,0,
1532,1582,1677,0,
1582,1462,1678,0,
1586,1528,1679,0,
1583,1528,1680,0,
1579,1585,1681,0,
1577,1584,1682,0,
1577,1585,1683,0,
1579,1581,1684,0,
1532,1588,1685,0,
1580,1532,1686,0,
1526,1580,1687,0,
1526,1586,1688,0,
1585,1462,1689,0,
1583,1532,1690,0,
1582,1508,1691,0,
1581,1528,1692,0,
1587,1528,1693,0,
1589,1580,1694,0,
1531,1528,1695,0,
1586,1462,1696,0,
1579,1531,1697,0,
1580,1508,1698,0,
1586,1532,1699,0,
1578,1532,1700,0,
1585,1528,1701,0,
1529,1508,1702,0,
1508,1587,1703,0,
1584,1528,1704,0,
1589,1584,1705,0,
1589,1582,1706,0,
1580,1528,1707,0,
1589,1578,1708,0,
1583,1462,1709,0,
1577,1531,1710,0,
1530,1462,1711,0,
1526,1582,1712,0,
1589,1531,1713,0,
1580,1462,1714,0,
1591,0,1715,2,
1509,1532,1716,0,
1590,0,1717,2,
1529,1528,1718,0,
1529,1532,1719,0,
1577,1580,1720,0,
1579,1583,1721,0,
1532,1581,1722,0,
1576,1528,1723,0,
1526,1587,1724,0,
1589,1509,1725,0,
1526,1531,1726,0,
1583,1508,1727,0,
1579,1509,1728,0,
1509,1528,1729,0,
1579,1587,1730,0,
1588,1462,1731,0,
1593,0,1732,2,
1577,1581,1733,0,
1589,1576,1734,0,
1594,1532,1735,0,
1526,1583,1736,0,
1577,1594,1737,0,
1594,1528,1738,0,
1530,1532,1739,0,
1576,1462,1740,0,
1577,1588,1741,0,
1526,1530,1742,0,
1589,1587,1743,0,
1579,1586,1744,0,
1579,1530,1745,0,
1595,0,1746,2,
1589,1529,1747,0,
1577,1530,1748,0,
1597,0,1749,2,
1517,1599,1750,0,
1601,0,1751,2,
1533,0,1752,2,
1527,0,1753,2,
1601,1519,1754,0,
1450,1601,1755,0,
1526,1584,1756,0,
1589,1530,1757,0,
1526,1509,1758,0,
1577,1583,1759,0,
1584,1462,1760,0,
1577,1587,1761,0,
1577,1578,1762,0,
1589,1581,1763,0,
1526,1594,1764,0,
1526,1585,1765,0,
1577,1586,1766,0,
1579,1584,1767,0,
1526,1576,1768,0,
1579,1582,1769,0,
1526,1581,1770,0,
1462,1587,1771,0,
1577,1509,1772,0,
1589,1588,1773,0,
1462,1581,1774,0,
1594,1462,1775,0,
1530,1528,1776,0,
1589,1585,1777,0,
1585,1532,1778,0,
1579,1529,1779,0,
1579,1576,1780,0,
1582,1528,1781,0,
1589,1583,1782,0,
1531,1508,1783,0,
1579,1594,1784,0,
1589,1594,1785,0,
1508,1581,1786,0,
1594,1508,1787,0,
1578,1462,1788,0,
1589,1586,1789,0,
1584,1532,1790,0,
1765,0,1791,2,
1606,0,1792,2,
1518,1751,1793,0,
1755,1448,1794,0,
1762,0,1795,2,
1764,0,1796,2,
1616,0,1797,2,
1613,0,1798,2,
1612,1341,1799,1,
1615,0,1800,2,
1611,1340,1801,1,
1614,0,1802,2,
1611,0,1803,2,
1618,1291,1804,0,
1620,0,1805,2,
1619,0,1806,2,
1622,1197,1807,0,
1617,1480,1808,0,
1621,0,1809,2,
1623,1347,1810,1,
1630,0,1811,2,
1631,0,1812,2,
1627,1422,1813,1,
1624,1350,1814,1,
1345,1629,1815,0,
1620,1481,1816,1,
1341,1612,1817,0,
1628,0,1818,2,
1348,1626,1819,0,
1625,0,1820,2,
1635,0,1821,2,
1633,1361,1822,1,
1634,0,1823,2,
1632,0,1824,2,
1636,0,1825,2,
1637,0,1826,2,
1641,1563,1827,0,
1642,1259,1828,0,
1638,1561,1829,0,
1619,1423,1830,1,
1639,0,1831,2,
1640,0,1832,2,
1640,1369,1833,1,
1624,0,1834,2,
1347,1623,1835,0,
1643,1432,1836,0,
1646,0,1837,2,
1633,0,1838,2,
1644,0,1839,2,
1645,0,1840,2,
1375,1648,1841,0,
1647,0,1842,2,
1649,1294,1843,0,
1422,1627,1844,0,
1652,1426,1845,0,
1650,0,1846,2,
1650,1376,1847,1,
1653,0,1848,2,
1654,0,1849,2,
1645,1433,1850,1,
1437,1655,1851,0,
1656,0,1852,2,
1659,0,1853,2,
1658,0,1854,2,
1779,0,1855,2,
1657,0,1856,2,
1780,0,1857,2,
1660,0,1858,2,
1661,0,1859,2,
1672,0,1860,2,
1681,0,1861,2,
1666,0,1862,2,
1689,0,1863,2,
1673,0,1864,2,
1688,0,1865,2,
1684,0,1866,2,
1683,0,1867,2,
1763,0,1868,2,
1664,0,1869,2,
1662,0,1870,2,
1663,0,1871,2,
1682,0,1872,2,
1665,0,1873,2,
1670,0,1874,2,
1690,0,1875,2,
1679,0,1876,2,
1680,0,1877,2,
1677,0,1878,2,
1671,0,1879,2,
1691,0,1880,2,
1678,0,1881,2,
1669,0,1882,2,
1687,0,1883,2,
1772,0,1884,2,
1685,0,1885,2,
1686,0,1886,2,
1676,0,1887,2,
1674,0,1888,2,
1675,0,1889,2,
1759,0,1890,2,
1789,0,1891,2,
1757,0,1892,2,
1783,0,1893,2,
1667,0,1894,2,
1788,0,1895,2,
1607,0,1896,2,
1668,0,1897,2,
1770,0,1898,2,
1608,0,1899,2,
1767,0,1900,2,
1790,0,1901,2,
1609,0,1902,2,
1693,0,1903,2,
1706,0,1904,2,
1692,0,1905,2,
1723,0,1906,2,
1694,0,1907,2,
1714,0,1908,2,
1713,0,1909,2,
1719,0,1910,2,
1718,0,1911,2,
1724,0,1912,2,
1720,0,1913,2,
1721,0,1914,2,
1708,0,1915,2,
1707,0,1916,2,
1716,0,1917,2,
1787,0,1918,2,
1592,1717,1919,0,
1768,0,1920,2,
1709,0,1921,2,
1695,0,1922,2,
1696,0,1923,2,
1704,0,1924,2,
1700,0,1925,2,
1722,0,1926,2,
1774,0,1927,2,
1703,0,1928,2,
1702,0,1929,2,
1711,0,1930,2,
1699,0,1931,2,
1698,0,1932,2,
1725,0,1933,2,
1781,0,1934,2,
1705,0,1935,2,
1710,0,1936,2,
1701,0,1937,2,
1697,0,1938,2,
1786,0,1939,2,
1712,0,1940,2,
1739,0,1941,2,
1726,0,1942,2,
1738,0,1943,2,
1742,0,1944,2,
1785,0,1945,2,
1784,0,1946,2,
1734,0,1947,2,
1775,0,1948,2,
1730,0,1949,2,
1758,0,1950,2,
1743,0,1951,2,
1736,0,1952,2,
1740,0,1953,2,
1773,0,1954,2,
1766,0,1955,2,
1741,0,1956,2,
1735,0,1957,2,
1761,0,1958,2,
1737,0,1959,2,
1729,0,1960,2,
1760,0,1961,2,
1771,0,1962,2,
1727,0,1963,2,
1731,0,1964,2,
1733,0,1965,2,
1728,0,1966,2,
1745,0,1967,2,
1744,0,1968,2,
1756,0,1969,2,
1769,0,1970,2,
1782,0,1971,2,
1778,0,1972,2,
1747,0,1973,2,
1776,0,1974,2,
1748,0,1975,2,
1777,0,1976,2,
1749,1600,1977,0,
1448,1751,1978,0,
1750,0,1979,2,
1752,1753,1980,0,
1952,1956,1981,0,
1792,1795,1982,0,
1973,1880,1983,0,
1954,1920,1984,0,
1801,0,1985,2,
1799,1344,1986,1,
1797,1800,1987,0,
1802,1798,1988,0,
1423,1806,1989,0,
1807,1279,1990,0,
1344,1799,1991,0,
1810,1353,1992,1,
1809,1482,1993,0,
1801,1357,1994,1,
1804,1242,1995,0,
1797,1478,1996,0,
1808,0,1997,2,
1481,1805,1998,0,
1340,1803,1999,0,
1615,1820,2000,0,
1817,0,2001,2,
1816,1362,2002,1,
1415,1818,2003,0,
1819,0,2004,2,
1812,1811,2005,0,
1815,0,2006,2,
1814,1487,2007,1,
1824,1495,2008,0,
1816,0,2009,2,
1825,1498,2010,0,
1822,1366,2011,1,
1826,1562,2012,0,
1828,1401,2013,0,
1369,1832,2014,0,
1353,1810,2015,0,
1835,0,2016,2,
1834,1279,2017,0,
1822,0,2018,2,
1814,0,2019,2,
1827,0,2020,2,
1830,0,2021,2,
1831,1499,2022,0,
1830,1829,2023,1,
1833,0,2024,2,
1829,0,2025,2,
1833,1644,2026,1,
1840,1433,2027,0,
1361,1838,2028,0,
1836,0,2029,2,
1841,0,2030,2,
1844,0,2031,2,
1843,1284,2032,0,
1647,1836,2033,1,
1847,0,2034,2,
1845,0,2035,2,
1846,1294,2036,0,
1848,1572,2037,0,
1654,1845,2038,1,
1850,0,2039,2,
1656,1851,2040,1,
1851,0,2041,2,
1857,1854,2042,0,
1853,1855,2043,0,
1858,1859,2044,0,
1867,1883,2045,0,
1862,1890,2046,0,
1889,1899,2047,0,
1878,1879,2048,0,
1882,1897,2049,0,
1796,1792,2050,0,
1865,1868,2051,0,
1853,1886,2052,0,
1883,1861,2053,0,
1892,1881,2054,0,
1877,1876,2055,0,
1795,1869,2056,0,
1859,1885,2057,0,
1896,1880,2058,0,
1874,1860,2059,0,
1894,1872,2060,0,
1884,1860,2061,0,
1891,1898,2062,0,
1887,1870,2063,0,
1888,1889,2064,0,
1873,1893,2065,0,
1871,1864,2066,0,
1898,1895,2067,0,
1884,1866,2068,0,
1863,1875,2069,0,
1918,1893,2070,0,
1870,1939,2071,0,
1928,1873,2072,0,
1865,1881,2073,0,
1871,1932,2074,0,
1872,1928,2075,0,
1904,1916,2076,0,
1881,1906,2077,0,
1876,1926,2078,0,
1882,1874,2079,0,
1917,1937,2080,0,
1866,1934,2081,0,
1932,1924,2082,0,
1861,1897,2083,0,
1898,1886,2084,0,
1920,1936,2085,0,
1910,1901,2086,0,
1931,1929,2087,0,
1919,0,2088,2,
1930,1921,2089,0,
1732,1877,2090,0,
1891,1923,2091,0,
1913,1908,2092,0,
1935,1869,2093,0,
1911,1874,2094,0,
1933,1869,2095,0,
1883,1900,2096,0,
1939,1873,2097,0,
1912,1906,2098,0,
1925,1901,2099,0,
1862,1863,2100,0,
1732,1928,2101,0,
1888,1858,2102,0,
1903,1905,2103,0,
1940,1936,2104,0,
1915,1938,2105,0,
1865,1907,2106,0,
1909,1922,2107,0,
1944,1946,2108,0,
1954,1889,2109,0,
1951,1939,2110,0,
1952,1915,2111,0,
1962,1934,2112,0,
1859,1905,2113,0,
1933,1950,2114,0,
1956,1866,2115,0,
1901,1961,2116,0,
1868,1884,2117,0,
1889,1913,2118,0,
1942,1941,2119,0,
1861,1938,2120,0,
1945,1921,2121,0,
1854,1961,2122,0,
1969,1950,2123,0,
1952,1927,2124,0,
1925,1882,2125,0,
1958,1928,2126,0,
1908,1929,2127,0,
1960,1916,2128,0,
1952,1958,2129,0,
1878,1931,2130,0,
1875,1746,2131,0,
1948,1953,2132,0,
1791,1915,2133,0,
1864,1906,2134,0,
1912,1938,2135,0,
1907,1926,2136,0,
1914,1965,2137,0,
1855,1870,2138,0,
1896,1964,2139,0,
1943,1895,2140,0,
1955,1895,2141,0,
1949,1897,2142,0,
1972,1882,2143,0,
1886,1961,2144,0,
1946,1925,2145,0,
1857,1932,2146,0,
1908,1902,2147,0,
1969,1965,2148,0,
1976,1927,2149,0,
1732,1893,2150,0,
1879,1880,2151,0,
1930,1870,2152,0,
1943,1934,2153,0,
1796,1885,2154,0,
1923,1963,2155,0,
1970,1934,2156,0,
1956,1876,2157,0,
1890,1859,2158,0,
1973,1966,2159,0,
1948,1901,2160,0,
1940,1930,2161,0,
1966,1927,2162,0,
1968,1890,2163,0,
1940,1968,2164,0,
1936,1916,2165,0,
1974,1918,2166,0,
1971,1902,2167,0,
1911,1880,2168,0,
1950,1974,2169,0,
1912,1869,2170,0,
1920,1859,2171,0,
1940,1931,2172,0,
1944,1951,2173,0,
1933,1967,2174,0,
1948,1941,2175,0,
1952,1908,2176,0,
1924,1869,2177,0,
1957,1855,2178,0,
1959,1911,2179,0,
1973,1867,2180,0,
1853,1899,2181,0,
1863,1885,2182,0,
1883,1917,2183,0,
1879,1902,2184,0,
1954,1795,2185,0,
1958,1970,2186,0,
1973,1972,2187,0,
1956,1938,2188,0,
1732,1869,2189,0,
1965,1949,2190,0,
1954,1913,2191,0,
1900,1957,2192,0,
1943,1902,2193,0,
1942,1975,2194,0,
1916,1910,2195,0,
1954,1884,2196,0,
1920,1934,2197,0,
1949,1923,2198,0,
1908,1903,2199,0,
1880,1964,2200,0,
1791,1929,2201,0,
1938,1860,2202,0,
1930,1596,2203,0,
1883,1854,2204,0,
1960,1906,2205,0,
1944,1857,2206,0,
1909,1872,2207,0,
1965,1929,2208,0,
1942,1939,2209,0,
1971,1879,2210,0,
1971,1935,2211,0,
1950,1926,2212,0,
1881,1923,2213,0,
1937,1918,2214,0,
1892,1928,2215,0,
1923,1953,2216,0,
1871,1867,2217,0,
1909,1932,2218,0,
1853,1929,2219,0,
1930,1960,2220,0,
1955,1956,2221,0,
1792,1960,2222,0,
1732,1960,2223,0,
1909,1959,2224,0,
1865,1920,2225,0,
1976,1791,2226,0,
1915,1966,2227,0,
1895,1901,2228,0,
1954,1887,2229,0,
1946,1918,2230,0,
1929,1905,2231,0,
1959,1975,2232,0,
1882,1928,2233,0,
1949,1882,2234,0,
1959,1896,2235,0,
1796,1886,2236,0,
1854,1949,2237,0,
1910,1896,2238,0,
1957,1887,2239,0,
1914,1889,2240,0,
1974,1928,2241,0,
1861,1872,2242,0,
1976,1862,2243,0,
1863,1948,2244,0,
1962,1885,2245,0,
1886,1885,2246,0,
1921,1884,2247,0,
1857,1922,2248,0,
1968,1911,2249,0,
1909,1967,2250,0,
1910,1929,2251,0,
1892,1863,2252,0,
1861,1896,2253,0,
1975,1887,2254,0,
1795,1906,2255,0,
1937,1746,2256,0,
1963,1932,2257,0,
1870,1934,2258,0,
1853,1953,2259,0,
1947,1923,2260,0,
1892,1897,2261,0,
1954,1792,2262,0,
1967,1946,2263,0,
1967,1974,2264,0,
1867,1795,2265,0,
1947,1915,2266,0,
1911,1877,2267,0,
1977,0,2268,2,
1908,1876,2269,0,
1950,1874,2270,0,
1918,1876,2271,0,
1857,1964,2272,0,
1953,1897,2273,0,
1795,1949,2274,0,
1904,1936,2275,0,
1793,0,2276,2,
1978,0,2277,2,
1908,1886,2278,0,
1933,1926,2279,0,
1938,1895,2280,0,
1933,1948,2281,0,
1951,1860,2282,0,
1890,1922,2283,0,
1892,1926,2284,0,
1859,1899,2285,0,
1791,1928,2286,0,
1944,1746,2287,0,
1898,1942,2288,0,
1911,1962,2289,0,
1971,1891,2290,0,
1868,1949,2291,0,
1875,1886,2292,0,
1952,1862,2293,0,
1899,1974,2294,0,
1943,1876,2295,0,
1866,1885,2296,0,
1870,1916,2297,0,
1891,1897,2298,0,
1865,1969,2299,0,
1915,1975,2300,0,
1951,1871,2301,0,
1975,1878,2302,0,
1980,0,2303,2,
1861,1864,2304,0,
1947,1946,2305,0,
1872,1873,2306,0,
1968,1873,2307,0,
1956,1927,2308,0,
1921,1903,2309,0,
1950,1899,2310,0,
1882,1937,2311,0,
1858,1932,2312,0,
1930,1911,2313,0,
1904,1860,2314,0,
1970,1903,2315,0,
1854,1953,2316,0,
1967,1925,2317,0,
1898,1732,2318,0,
1974,1885,2319,0,
1791,1924,2320,0,
1923,1885,2321,0,
1913,1876,2322,0,
1924,1893,2323,0,
1938,1964,2324,0,
1957,1866,2325,0,
1858,1894,2326,0,
1909,1968,2327,0,
1941,1970,2328,0,
1907,1972,2329,0,
1886,1937,2330,0,
1917,1929,2331,0,
1944,1962,2332,0,
1892,1891,2333,0,
1941,1795,2334,0,
1858,1899,2335,0,
1887,1873,2336,0,
1875,1853,2337,0,
1966,1894,2338,0,
1871,1921,2339,0,
1955,1957,2340,0,
1940,1969,2341,0,
1863,1924,2342,0,
1973,1955,2343,0,
1965,1746,2344,0,
1864,1929,2345,0,
1858,1893,2346,0,
1914,1928,2347,0,
1796,1910,2348,0,
1951,1970,2349,0,
1956,1936,2350,0,
1938,1873,2351,0,
1939,1879,2352,0,
1888,1924,2353,0,
1861,1857,2354,0,
1866,1922,2355,0,
1941,1746,2356,0,
1920,1885,2357,0,
1916,1874,2358,0,
1906,1905,2359,0,
1963,1925,2360,0,
1882,1953,2361,0,
1940,1934,2362,0,
1904,1900,2363,0,
1918,1879,2364,0,
1907,1857,2365,0,
1938,1910,2366,0,
1970,1866,2367,0,
1889,1876,2368,0,
1867,1922,2369,0,
1872,1908,2370,0,
1917,1961,2371,0,
1796,1969,2372,0,
1945,1895,2373,0,
1901,1964,2374,0,
1970,1897,2375,0,
1898,1933,2376,0,
1890,1931,2377,0,
1946,1895,2378,0,
1939,1905,2379,0,
1930,1938,2380,0,
1923,1870,2381,0,
1796,1963,2382,0,
1915,1948,2383,0,
1944,1853,2384,0,
1863,1913,2385,0,
1889,1923,2386,0,
1951,1746,2387,0,
1963,1943,2388,0,
1932,1887,2389,0,
1950,1893,2390,0,
1881,1974,2391,0,
1859,1962,2392,0,
1875,1929,2393,0,
1974,1911,2394,0,
1938,1922,2395,0,
1906,1903,2396,0,
1972,1963,2397,0,
1951,1864,2398,0,
1868,1939,2399,0,
1920,1886,2400,0,
1892,1890,2401,0,
1957,1869,2402,0,
1909,1894,2403,0,
1941,1860,2404,0,
1955,1855,2405,0,
1898,1857,2406,0,
1927,1961,2407,0,
1910,1964,2408,0,
1909,1918,2409,0,
1899,1937,2410,0,
1858,1874,2411,0,
1853,1864,2412,0,
1891,1875,2413,0,
1930,1854,2414,0,
1907,1876,2415,0,
1878,1746,2416,0,
1898,1863,2417,0,
1868,1855,2418,0,
1859,1938,2419,0,
1973,1975,2420,0,
1904,1963,2421,0,
1929,1901,2422,0,
1943,1860,2423,0,
1884,1901,2424,0,
1889,1922,2425,0,
1883,1957,2426,0,
1944,1907,2427,0,
1796,1859,2428,0,
1976,1894,2429,0,
1942,1899,2430,0,
1951,1961,2431,0,
1918,1943,2432,0,
1915,1914,2433,0,
1860,1903,2434,0,
1855,1956,2435,0,
1884,1864,2436,0,
1951,1906,2437,0,
1925,1876,2438,0,
1917,1916,2439,0,
1933,1968,2440,0,
1954,1955,2441,0,
1899,1962,2442,0,
1896,1902,2443,0,
1948,1974,2444,0,
1945,1946,2445,0,
1918,1895,2446,0,
1959,1966,2447,0,
1871,1957,2448,0,
1982,1891,2449,0,
1986,1352,2450,1,
1352,1986,2451,0,
1987,0,2452,2,
1988,0,2453,2,
1357,1985,2454,0,
1818,1997,2455,0,
1996,0,2456,2,
1990,0,2457,2,
1989,0,2458,2,
1813,1993,2459,1,
1992,1425,2460,1,
1991,0,2461,2,
1997,1818,2462,1,
1999,0,2463,2,
1994,1363,2464,1,
1995,0,2465,2,
1998,0,2466,2,
2007,1430,2467,1,
2000,1616,2468,0,
2003,0,2469,2,
2006,1823,2470,0,
2002,1492,2471,1,
2001,1821,2472,0,
2008,0,2473,2,
1993,0,2474,2,
2010,0,2475,2,
2012,0,2476,2,
1994,0,2477,2,
1425,1992,2478,0,
2011,1373,2479,1,
2009,1212,2480,0,
2007,0,2481,2,
2002,0,2482,2,
2005,0,2483,2,
2016,1837,2484,0,
1487,2019,2485,0,
2017,1228,2486,0,
1366,2018,2487,0,
2015,0,2488,2,
2022,0,2489,2,
2011,0,2490,2,
2024,1839,2491,0,
2021,2025,2492,0,
2013,0,2493,2,
2014,0,2494,2,
2028,0,2495,2,
1842,2029,2496,0,
2027,0,2497,2,
2008,2023,2498,1,
2032,0,2499,2,
2030,1651,2500,0,
2036,1282,2501,0,
1849,2035,2502,0,
1850,2037,2503,1,
2037,0,2504,2,
1852,2041,2505,0,
2042,2043,2506,0,
2056,1907,2507,0,
2068,2067,2508,0,
2058,1864,2509,0,
2047,2048,2510,0,
2061,1903,2511,0,
2066,2045,2512,0,
2059,1902,2513,0,
2063,1866,2514,0,
2062,1927,2515,0,
2065,2064,2516,0,
2046,2069,2517,0,
2049,1926,2518,0,
2055,1914,2519,0,
2050,2052,2520,0,
2053,1907,2521,0,
2057,2054,2522,0,
2051,2060,2523,0,
2083,1947,2524,0,
2090,2091,2525,0,
2104,2100,2526,0,
2107,1957,2527,0,
2106,2103,2528,0,
2076,2082,2529,0,
2101,1887,2530,0,
2077,1963,2531,0,
2092,1924,2532,0,
2075,2073,2533,0,
2086,1959,2534,0,
2085,1871,2535,0,
2074,2102,2536,0,
2070,2096,2537,0,
2078,2072,2538,0,
2071,1966,2539,0,
2084,1877,2540,0,
2095,1945,2541,0,
2088,1386,2542,1,
2098,2103,2543,0,
2081,2079,2544,0,
2094,2097,2545,0,
2055,1910,2546,0,
2120,2126,2547,0,
2122,1960,2548,0,
2115,1955,2549,0,
2138,2128,2550,0,
2147,2123,2551,0,
2117,2119,2552,0,
2141,2139,2553,0,
2124,1872,2554,0,
2133,1877,2555,0,
2112,1967,2556,0,
2142,1894,2557,0,
2060,1866,2558,0,
2127,1915,2559,0,
2132,1928,2560,0,
2042,1968,2561,0,
2096,2116,2562,0,
2136,1905,2563,0,
2107,1944,2564,0,
2131,1941,2565,0,
2137,1967,2566,0,
2111,1963,2567,0,
2121,2102,2568,0,
2140,1906,2569,0,
2113,1958,2570,0,
2114,2130,2571,0,
2125,1961,2572,0,
2089,1966,2573,0,
2172,2051,2574,0,
2175,2069,2575,0,
2146,2145,2576,0,
2180,1862,2577,0,
2148,1960,2578,0,
2157,1943,2579,0,
2176,1862,2580,0,
2177,1918,2581,0,
2175,2125,2582,0,
2154,1965,2583,0,
2147,1878,2584,0,
2167,2131,2585,0,
1386,2088,2586,0,
2062,1874,2587,0,
2144,1881,2588,0,
2080,1949,2589,0,
2153,2152,2590,0,
2149,2172,2591,0,
2069,1795,2592,0,
2147,1860,2593,0,
2179,1935,2594,0,
2181,2151,2595,0,
2164,2143,2596,0,
2178,1925,2597,0,
2149,2163,2598,0,
2165,2162,2599,0,
2169,2168,2600,0,
2173,2174,2601,0,
2156,1867,2602,0,
2158,1913,2603,0,
2171,1926,2604,0,
2183,1913,2605,0,
2209,1918,2606,0,
2187,2093,2607,0,
2206,1888,2608,0,
2205,1914,2609,0,
2188,2186,2610,0,
2194,1894,2611,0,
2199,2202,2612,0,
2189,1892,2613,0,
2196,1945,2614,0,
2197,1951,2615,0,
2195,1889,2616,0,
2212,1888,2617,0,
2214,1935,2618,0,
2163,1914,2619,0,
2198,2185,2620,0,
2191,2193,2621,0,
2192,1972,2622,0,
2220,1887,2623,0,
2204,1732,2624,0,
2217,1965,2625,0,
2219,1861,2626,0,
2084,2131,2627,0,
2216,2215,2628,0,
2218,2210,2629,0,
2200,1934,2630,0,
2062,2103,2631,0,
2236,2235,2632,0,
2238,1953,2633,0,
2225,1871,2634,0,
2226,1971,2635,0,
2224,1879,2636,0,
2221,1975,2637,0,
2222,1972,2638,0,
2124,1860,2639,0,
2159,2060,2640,0,
2246,1890,2641,0,
2233,1933,2642,0,
2234,1879,2643,0,
2237,1897,2644,0,
2229,2107,2645,0,
2058,1970,2646,0,
2187,1870,2647,0,
2244,2243,2648,0,
2063,1864,2649,0,
2124,1864,2650,0,
2249,2250,2651,0,
2258,1968,2652,0,
2247,2248,2653,0,
2125,1939,2654,0,
2251,1916,2655,0,
2261,1880,2656,0,
2255,1948,2657,0,
2116,1922,2658,0,
2253,2254,2659,0,
2270,1947,2660,0,
2269,2272,2661,0,
2273,1893,2662,0,
2265,1937,2663,0,
2284,1888,2664,0,
2283,1943,2665,0,
2282,1862,2666,0,
2274,2275,2667,0,
2277,2276,2668,0,
2292,2293,2669,0,
2287,1863,2670,0,
2286,1901,2671,0,
2288,1935,2672,0,
2043,1955,2673,0,
2291,1964,2674,0,
2289,1921,2675,0,
2295,1935,2676,0,
2294,2257,2677,0,
2298,2297,2678,0,
2213,1861,2679,0,
2296,1905,2680,0,
2301,1944,2681,0,
2300,1947,2682,0,
2306,2305,2683,0,
2307,2312,2684,0,
2302,1945,2685,0,
2308,2304,2686,0,
2262,1951,2687,0,
2314,2313,2688,0,
2315,2210,2689,0,
2272,1959,2690,0,
2319,1947,2691,0,
2318,1926,2692,0,
2289,1867,2693,0,
2321,1887,2694,0,
2320,1912,2695,0,
2322,1893,2696,0,
2275,1922,2697,0,
2323,1894,2698,0,
2325,1913,2699,0,
2324,1958,2700,0,
2046,1936,2701,0,
2329,1857,2702,0,
2330,1975,2703,0,
2328,1912,2704,0,
2332,1885,2705,0,
2161,2163,2706,0,
2340,2339,2707,0,
2334,2336,2708,0,
2338,2305,2709,0,
2335,1971,2710,0,
2344,1958,2711,0,
2345,1792,2712,0,
2343,1899,2713,0,
2341,1881,2714,0,
2093,1867,2715,0,
2237,1959,2716,0,
2063,2140,2717,0,
2349,1883,2718,0,
2347,1895,2719,0,
2348,1926,2720,0,
2350,2351,2721,0,
2355,2354,2722,0,
2143,1966,2723,0,
2121,2051,2724,0,
2358,2359,2725,0,
2356,1914,2726,0,
2360,1947,2727,0,
2361,1863,2728,0,
2363,1948,2729,0,
2367,1902,2730,0,
2369,1885,2731,0,
2371,1897,2732,0,
2370,1946,2733,0,
2332,1868,2734,0,
2374,2373,2735,0,
2375,1908,2736,0,
2172,1795,2737,0,
2377,1962,2738,0,
2381,1874,2739,0,
2379,1940,2740,0,
2223,1746,2741,0,
2383,1963,2742,0,
2385,1911,2743,0,
1984,2384,2744,0,
2386,1878,2745,0,
2390,1963,2746,0,
2055,2102,2747,0,
2359,1853,2748,0,
2392,1935,2749,0,
2393,1862,2750,0,
2394,1967,2751,0,
2396,2395,2752,0,
2398,1917,2753,0,
2397,1925,2754,0,
2130,2256,2755,0,
2402,1958,2756,0,
2404,1873,2757,0,
2403,1963,2758,0,
2074,1884,2759,0,
2448,2441,2760,0,
2399,1934,2761,0,
2064,1957,2762,0,
2096,2103,2763,0,
2408,1892,2764,0,
2057,1915,2765,0,
2410,1924,2766,0,
2409,1862,2767,0,
1984,1796,2768,0,
2413,1965,2769,0,
2414,1897,2770,0,
2166,2415,2771,0,
2412,2275,2772,0,
2420,2106,2773,0,
2417,1948,2774,0,
2042,2223,2775,0,
2149,2055,2776,0,
2419,2418,2777,0,
2239,1939,2778,0,
2320,2167,2779,0,
2240,2200,2780,0,
2064,1900,2781,0,
2429,1971,2782,0,
2428,1966,2783,0,
2427,1862,2784,0,
2369,2096,2785,0,
2430,1909,2786,0,
2431,1912,2787,0,
2200,1936,2788,0,
2435,1920,2789,0,
2434,2436,2790,0,
2437,1921,2791,0,
2447,2442,2792,0,
2443,2444,2793,0,
1981,1791,2794,0,
2186,1972,2795,0,
2405,2406,2796,0,
2445,1971,2797,0,
2400,1893,2798,0,
2440,1938,2799,0,
2449,2401,2800,0,
2453,2452,2801,0,
2451,0,2802,2,
2450,1360,2803,1,
2454,0,2804,2,
2466,2465,2805,0,
2458,2457,2806,0,
2460,2005,2807,1,
2004,2459,2808,0,
2462,0,2809,2,
2464,1368,2810,1,
2455,0,2811,2,
2464,0,2812,2,
2472,0,2813,2,
2470,0,2814,2,
2471,0,2815,2,
2471,2472,2816,1,
2467,0,2817,2,
2468,0,2818,2,
1363,2477,2819,0,
1492,2482,2820,0,
2480,1294,2821,0,
1360,2450,2822,0,
2467,1827,2823,1,
2460,2483,2824,0,
2479,0,2825,2,
1430,2481,2826,0,
2478,0,2827,2,
1813,2474,2828,0,
2459,0,2829,2,
2462,2475,2830,0,
2023,2473,2831,0,
2485,0,2832,2,
2486,0,2833,2,
1373,2490,2834,0,
2487,0,2835,2,
2494,2493,2836,0,
2491,0,2837,2,
2479,2022,2838,1,
2492,0,2839,2,
2497,1571,2840,0,
2496,0,2841,2,
2484,0,2842,2,
2500,0,2843,2,
2498,0,2844,2,
2502,0,2845,2,
2501,0,2846,2,
2039,2504,2847,0,
2505,0,2848,2,
2506,2044,2849,0,
2509,1796,2850,0,
2512,2510,2851,0,
2516,2099,2852,0,
2511,1951,2853,0,
2080,2518,2854,0,
2514,2087,2855,0,
2513,1872,2856,0,
2517,2519,2857,0,
2522,2105,2858,0,
2521,2213,2859,0,
2520,1910,2860,0,
2507,2508,2861,0,
2523,2093,2862,0,
2515,2089,2863,0,
2540,1925,2864,0,
2535,2129,2865,0,
2531,2529,2866,0,
2528,2110,2867,0,
2537,2533,2868,0,
2532,2536,2869,0,
2534,1941,2870,0,
2543,2545,2871,0,
2527,2544,2872,0,
2525,2526,2873,0,
2538,2059,2874,0,
2558,1936,2875,0,
2566,2570,2876,0,
2564,1894,2877,0,
2569,1896,2878,0,
2554,1953,2879,0,
2572,1931,2880,0,
2549,2160,2881,0,
2559,2166,2882,0,
2557,1795,2883,0,
2551,2182,2884,0,
2568,2161,2885,0,
2548,2155,2886,0,
2546,2150,2887,0,
2552,2550,2888,0,
2560,1922,2889,0,
2562,2561,2890,0,
2563,2532,2891,0,
2555,1955,2892,0,
2565,2170,2893,0,
2507,2556,2894,0,
2578,1936,2895,0,
2592,1853,2896,0,
2593,1935,2897,0,
2588,2207,2898,0,
2584,1946,2899,0,
2529,2065,2900,0,
2582,2201,2901,0,
2587,2591,2902,0,
2187,2597,2903,0,
2604,2601,2904,0,
2602,2603,2905,0,
2586,0,2906,2,
2589,2208,2907,0,
2595,2590,2908,0,
2585,2596,2909,0,
2578,2159,2910,0,
2598,2203,2911,0,
2628,2629,2912,0,
2620,2612,2913,0,
2625,2242,2914,0,
2609,2228,2915,0,
2604,2223,2916,0,
2534,1922,2917,0,
2617,2230,2918,0,
2619,2232,2919,0,
2630,2245,2920,0,
2616,2613,2921,0,
2614,2573,2922,0,
2626,2241,2923,0,
2646,1732,2924,0,
2641,2252,2925,0,
2633,2635,2926,0,
2638,2636,2927,0,
2644,2260,2928,0,
2647,1931,2929,0,
2643,1875,2930,0,
2640,2043,2931,0,
2642,2257,2932,0,
2652,1940,2933,0,
2655,2267,2934,0,
2649,1917,2935,0,
2650,1910,2936,0,
2657,2271,2937,0,
2659,2651,2938,0,
2663,2285,2939,0,
2570,2114,2940,0,
2661,2660,2941,0,
2539,1864,2942,0,
2668,0,2943,2,
2508,2664,2944,0,
2667,2172,2945,0,
2666,2074,2946,0,
2647,1792,2947,0,
2159,2669,2948,0,
2670,2671,2949,0,
2675,1916,2950,0,
2135,2550,2951,0,
2681,2311,2952,0,
2240,2679,2953,0,
2686,2683,2954,0,
2685,2317,2955,0,
2556,2135,2956,0,
2684,2080,2957,0,
2687,1854,2958,0,
2695,1916,2959,0,
2693,1857,2960,0,
2606,2114,2961,0,
2289,2691,2962,0,
2697,1877,2963,0,
2688,2606,2964,0,
2701,1941,2965,0,
2699,2327,2966,0,
2700,2326,2967,0,
2704,2331,2968,0,
2703,2702,2969,0,
2647,1945,2970,0,
2708,2710,2971,0,
2712,2711,2972,0,
2714,2346,2973,0,
2713,2200,2974,0,
2715,1858,2975,0,
2689,2093,2976,0,
2717,1927,2977,0,
2718,2719,2978,0,
2240,2713,2979,0,
2724,2357,2980,0,
2726,2054,2981,0,
2523,2114,2982,0,
2725,2727,2983,0,
2728,2364,2984,0,
2729,2365,2985,0,
2730,2368,2986,0,
2556,2352,2987,0,
2679,2716,2988,0,
2731,1896,2989,0,
2734,1927,2990,0,
2736,2376,2991,0,
2737,1949,2992,0,
2738,2378,2993,0,
2740,2382,2994,0,
2689,2055,2995,0,
2741,1902,2996,0,
2744,2743,2997,0,
2745,2388,2998,0,
2652,1896,2999,0,
2123,2756,3000,0,
2167,2643,3001,0,
2748,2749,3002,0,
2713,2069,3003,0,
2752,2751,3004,0,
2753,2754,3005,0,
2550,2102,3006,0,
2793,2149,3007,0,
2756,2130,3008,0,
2757,2758,3009,0,
2790,2791,3010,0,
2755,1900,3011,0,
2794,2795,3012,0,
2762,1948,3013,0,
2763,1917,3014,0,
2557,2175,3015,0,
2765,2411,3016,0,
2766,2767,3017,0,
2691,1904,3018,0,
2560,2768,3019,0,
2772,2674,3020,0,
2769,2770,3021,0,
2421,2771,3022,0,
2531,2116,3023,0,
2776,2690,3024,0,
2775,1953,3025,0,
2778,2425,3026,0,
2773,2116,3027,0,
2601,2716,3028,0,
2774,2189,3029,0,
2780,2684,3030,0,
2783,2782,3031,0,
2785,2131,3032,0,
2787,2786,3033,0,
2781,2432,3034,0,
2768,2123,3035,0,
2773,2552,3036,0,
2761,2407,3037,0,
2798,2666,3038,0,
2797,2446,3039,0,
2759,1901,3040,0,
2788,2439,3041,0,
2800,3012,3042,0,
3036,2796,3043,0,
2801,2456,3044,0,
2804,2463,3045,0,
2803,1367,3046,1,
2802,2461,3047,0,
2010,2809,3048,0,
2805,0,3049,2,
2004,2811,3050,0,
2810,2012,3051,1,
2810,0,3052,2,
2808,2469,3053,0,
2806,0,3054,2,
2807,0,3055,2,
1368,2812,3056,0,
2815,2813,3057,0,
1367,2803,3058,0,
2817,2020,3059,0,
2827,2488,3060,0,
2823,2484,3061,1,
2826,0,3062,2,
2822,0,3063,2,
2825,2489,3064,0,
2819,0,3065,2,
2821,0,3066,2,
2820,0,3067,2,
2807,2806,3068,1,
2824,0,3069,2,
2828,0,3070,2,
2831,0,3071,2,
2832,2833,3072,0,
2838,2836,3073,1,
2834,0,3074,2,
2835,2495,3075,0,
2840,0,3076,2,
2823,2842,3077,0,
2836,0,3078,2,
2841,2499,3079,0,
2034,2843,3080,0,
2847,0,3081,2,
2843,2034,3082,1,
2038,2840,3083,1,
2848,1856,3084,0,
2849,1795,3085,0,
3041,2792,3086,0,
2856,2541,3087,0,
2850,2108,3088,0,
2851,2060,3089,0,
2861,2539,3090,0,
2860,2862,3091,0,
2855,2524,3092,0,
2852,2135,3093,0,
2853,2134,3094,0,
2857,2858,3095,0,
2854,2109,3096,0,
2863,2530,3097,0,
2859,1792,3098,0,
2874,1927,3099,0,
2867,2547,3100,0,
2872,2873,3101,0,
2869,2871,3102,0,
2868,2864,3103,0,
2553,2865,3104,0,
2599,2894,3105,0,
2883,1871,3106,0,
2889,1923,3107,0,
2880,2580,3108,0,
2875,2190,3109,0,
2876,2879,3110,0,
2877,2859,3111,0,
2892,1853,3112,0,
2884,2594,3113,0,
2885,2211,3114,0,
2893,2600,3115,0,
2878,2581,3116,0,
2887,2102,3117,0,
2888,2887,3118,0,
2881,2576,3119,0,
2900,1866,3120,0,
2907,2623,3121,0,
2910,2239,3122,0,
2905,2103,3123,0,
2903,2899,3124,0,
2901,2611,3125,0,
2911,2624,3126,0,
2902,2908,3127,0,
2898,2606,3128,0,
2895,1968,3129,0,
2904,2890,3130,0,
2896,2608,3131,0,
2605,2899,3132,0,
2919,1955,3133,0,
2914,2648,3134,0,
2922,1927,3135,0,
2916,2639,3136,0,
2103,2920,3137,0,
2930,1930,3138,0,
2928,1965,3139,0,
2851,2103,3140,0,
2929,1970,3141,0,
2924,2264,3142,0,
2935,2278,3143,0,
2933,1970,3144,0,
2940,2665,3145,0,
2942,1897,3146,0,
2945,2299,3147,0,
2944,1956,3148,0,
2946,2674,3149,0,
2947,1958,3150,0,
2905,2147,3151,0,
2948,1904,3152,0,
2950,2682,3153,0,
2953,2952,3154,0,
2954,2583,3155,0,
2957,1868,3156,0,
2956,2688,3157,0,
2958,2692,3158,0,
2959,2696,3159,0,
2961,2059,3160,0,
2962,1931,3161,0,
2963,2256,3162,0,
2964,2886,3163,0,
2135,2966,3164,0,
2624,2865,3165,0,
2968,1954,3166,0,
2706,2970,3167,0,
2800,2074,3168,0,
2974,2973,3169,0,
2975,2716,3170,0,
2977,2720,3171,0,
2968,2123,3172,0,
2982,2981,3173,0,
2989,2733,3174,0,
2990,2372,3175,0,
2898,2106,3176,0,
2897,1897,3177,0,
2975,2175,3178,0,
2992,2604,3179,0,
2624,2993,3180,0,
2996,2742,3181,0,
2997,2583,3182,0,
2972,2985,3183,0,
2999,1732,3184,0,
2993,2669,3185,0,
3000,2369,3186,0,
3001,1865,3187,0,
2637,2890,3188,0,
3003,1934,3189,0,
3038,3039,3190,0,
3007,2887,3191,0,
2877,2518,3192,0,
3011,2799,3193,0,
3032,2789,3194,0,
3014,2764,3195,0,
3015,1920,3196,0,
3019,1957,3197,0,
3018,2416,3198,0,
2135,2998,3199,0,
2954,3022,3200,0,
2777,2973,3201,0,
2333,3012,3202,0,
2920,1903,3203,0,
2879,2555,3204,0,
3021,2239,3205,0,
2951,2238,3206,0,
3020,2538,3207,0,
3028,1859,3208,0,
3023,2426,3209,0,
2520,2968,3210,0,
3010,2760,3211,0,
3042,3035,3212,0,
3047,0,3213,2,
3046,1500,3214,1,
3045,0,3215,2,
3044,0,3216,2,
3048,0,3217,2,
3054,3055,3218,0,
1500,3046,3219,0,
3050,0,3220,2,
3053,0,3221,2,
3052,2476,3222,0,
3051,3049,3223,0,
3058,0,3224,2,
3059,0,3225,2,
3056,0,3226,2,
3057,0,3227,2,
3067,3066,3228,0,
2805,3051,3229,1,
2816,3047,3230,1,
3068,0,3231,2,
2031,3070,3232,0,
2839,3071,3233,0,
3064,0,3234,2,
2026,3045,3235,1,
3060,0,3236,2,
3061,0,3237,2,
3073,0,3238,2,
2033,3075,3239,1,
3072,0,3240,2,
3061,3060,3241,1,
2038,3076,3242,0,
3077,0,3243,2,
2838,3078,3244,0,
3079,0,3245,2,
3075,0,3246,2,
3080,0,3247,2,
3079,2503,3248,1,
3083,0,3249,2,
1591,3084,3250,1,
3084,0,3251,2,
3085,1884,3252,0,
3089,2866,3253,0,
3086,2997,3254,0,
3093,2159,3255,0,
2571,3098,3256,0,
3094,3097,3257,0,
3092,3088,3258,0,
3090,2870,3259,0,
3087,2552,3260,0,
3096,2567,3261,0,
3091,3095,3262,0,
2891,3104,3263,0,
3097,2890,3264,0,
3103,3088,3265,0,
3102,1893,3266,0,
2886,3092,3267,0,
3101,3100,3268,0,
3099,2184,3269,0,
3118,2627,3270,0,
2607,3108,3271,0,
3115,1921,3272,0,
2909,3105,3273,0,
3117,2240,3274,0,
3107,2227,3275,0,
3109,2610,3276,0,
3112,2618,3277,0,
3113,3119,3278,0,
2520,3114,3279,0,
3111,3110,3280,0,
3129,3131,3281,0,
3123,2637,3282,0,
3132,2161,3283,0,
3129,2597,3284,0,
3130,3127,3285,0,
2913,3125,3286,0,
3126,2912,3287,0,
3128,2256,3288,0,
3124,2917,3289,0,
3133,2263,3290,0,
3135,2656,3291,0,
3137,2658,3292,0,
3134,3116,3293,0,
3119,1929,3294,0,
3141,2281,3295,0,
3139,2279,3296,0,
3143,2223,3297,0,
3144,2290,3298,0,
3145,2673,3299,0,
3146,2676,3300,0,
3147,2680,3301,0,
3148,2309,3302,0,
3150,2310,3303,0,
2951,3151,3304,0,
3152,2316,3305,0,
3115,2240,3306,0,
3156,2694,3307,0,
3155,2262,3308,0,
3161,2698,3309,0,
3162,1921,3310,0,
3163,2965,3311,0,
3164,2096,3312,0,
3113,2320,3313,0,
3094,1963,3314,0,
3165,2705,3315,0,
3168,2511,3316,0,
3102,2939,3317,0,
3097,2093,3318,0,
3175,2735,3319,0,
3176,2637,3320,0,
3177,1915,3321,0,
3179,2380,3322,0,
3114,2059,3323,0,
3182,1855,3324,0,
3183,2084,3325,0,
3184,2746,3326,0,
3186,2391,3327,0,
3188,2332,3328,0,
3207,3029,3329,0,
3086,3102,3330,0,
3211,3037,3331,0,
3198,3086,3332,0,
3197,2422,3333,0,
3143,3116,3334,0,
3198,2172,3335,0,
3154,3151,3336,0,
3206,3205,3337,0,
3204,3027,3338,0,
3114,2275,3339,0,
3201,3200,3340,0,
3199,3025,3341,0,
3203,1910,3342,0,
3209,2784,3343,0,
3208,2433,3344,0,
3191,3192,3345,0,
3190,3006,3346,0,
3212,3043,3347,0,
3216,2818,3348,0,
2816,3213,3349,0,
3214,2814,3350,0,
2026,3215,3351,0,
3219,0,3352,2,
3222,0,3353,2,
3223,0,3354,2,
3217,3221,3355,0,
3218,0,3356,2,
2830,3221,3357,0,
2829,3220,3358,0,
3224,3063,3359,0,
3062,3225,3360,0,
3226,3065,3361,0,
3214,2470,3362,1,
3229,0,3363,2,
3228,0,3364,2,
3230,0,3365,2,
3229,3228,3366,1,
3237,3236,3367,0,
3234,3074,3368,0,
3235,0,3369,2,
3233,0,3370,2,
3233,3231,3371,0,
3232,0,3372,2,
3232,2498,3373,0,
3239,0,3374,2,
2503,3245,3375,0,
3244,0,3376,2,
2033,3246,3377,0,
3242,0,3378,2,
3241,0,3379,2,
3247,2846,3380,0,
3248,0,3381,2,
1715,3251,3382,0,
2542,3250,3383,0,
3252,2118,3384,0,
3261,2213,3385,0,
3257,3262,3386,0,
3254,2555,3387,0,
3259,2882,3388,0,
3258,2114,3389,0,
3260,2583,3390,0,
3253,2579,3391,0,
3256,2577,3392,0,
3255,2574,3393,0,
3269,3116,3394,0,
3264,2200,3395,0,
3265,3102,3396,0,
3267,2140,3397,0,
3266,1878,3398,0,
3275,2898,3399,0,
3272,1918,3400,0,
3278,2645,3401,0,
3274,3122,3402,0,
3271,2631,3403,0,
3270,2923,3404,0,
2213,3276,3405,0,
3277,2632,3406,0,
3287,3108,3407,0,
3286,3285,3408,0,
3284,2614,3409,0,
3289,2932,3410,0,
3288,3283,3411,0,
3281,2544,3412,0,
3282,2931,3413,0,
3294,1796,3414,0,
3291,2106,3415,0,
3292,2662,3416,0,
3299,2678,3417,0,
3301,2102,3418,0,
3302,1865,3419,0,
3306,2046,3420,0,
3305,2955,3421,0,
3304,3154,3422,0,
3308,2960,3423,0,
3277,3302,3424,0,
3311,2969,3425,0,
3280,2333,3426,0,
3314,3166,3427,0,
3312,2337,3428,0,
3316,3170,3429,0,
3265,1940,3430,0,
3173,3318,3431,0,
3317,2058,3432,0,
3263,2060,3433,0,
3319,2849,3434,0,
3320,3178,3435,0,
3322,2739,3436,0,
3324,2387,3437,0,
3323,2665,3438,0,
3261,2550,3439,0,
2093,3290,3440,0,
3291,2887,3441,0,
3210,3301,3442,0,
3194,3331,3443,0,
3329,3280,3444,0,
3346,3193,3445,0,
3263,2055,3446,0,
3332,2046,3447,0,
3301,3012,3448,0,
2333,3319,3449,0,
3335,2864,3450,0,
3024,3333,3451,0,
3342,2438,3452,0,
3336,3329,3453,0,
3337,3338,3454,0,
3341,3195,3455,0,
3345,3193,3456,0,
3330,3347,3457,0,
3435,2991,3458,0,
3445,3444,3459,0,
3454,3453,3460,0,
3351,0,3461,2,
3350,0,3462,2,
3348,0,3463,2,
3349,0,3464,2,
3069,3356,3465,0,
3358,0,3466,2,
3357,0,3467,2,
3353,3354,3468,0,
3359,0,3469,2,
3362,3072,3470,1,
3361,0,3471,2,
3235,3361,3472,1,
3360,0,3473,2,
3362,0,3474,2,
3230,3359,3475,1,
3368,0,3476,2,
3367,0,3477,2,
3373,0,3478,2,
3371,0,3479,2,
3363,3364,3480,0,
2844,3372,3481,0,
3068,3370,3482,0,
3239,3368,3483,1,
3375,0,3484,2,
2845,3378,3485,0,
3377,0,3486,2,
2040,3380,3487,1,
3380,0,3488,2,
3382,0,3489,2,
3384,2573,3490,0,
3387,3106,3491,0,
3388,3391,3492,0,
3268,3391,3493,0,
3386,3263,3494,0,
3392,1920,3495,0,
3393,2621,3496,0,
3385,2897,3497,0,
3389,2615,3498,0,
3390,2231,3499,0,
3398,1955,3500,0,
3397,2259,3501,0,
3395,3120,3502,0,
3394,2256,3503,0,
3273,3396,3504,0,
3401,3404,3505,0,
3400,2065,3506,0,
3403,2653,3507,0,
3402,2925,3508,0,
3391,2632,3509,0,
3293,3410,3510,0,
3413,2937,3511,0,
3412,2936,3512,0,
3411,3142,3513,0,
3442,3443,3514,0,
3414,2939,3515,0,
3410,3300,3516,0,
3265,3417,3517,0,
3419,1906,3518,0,
3421,3422,3519,0,
3423,3159,3520,0,
2898,3410,3521,0,
3426,3313,3522,0,
3425,2074,3523,0,
3428,2709,3524,0,
3427,2707,3525,0,
3429,2721,3526,0,
2353,3430,3527,0,
2520,3431,3528,0,
3432,2362,3529,0,
2352,3347,3530,0,
3433,2167,3531,0,
2988,3400,3532,0,
3421,3436,3533,0,
3423,2074,3534,0,
3437,2998,3535,0,
3438,2389,3536,0,
3398,2963,3537,0,
3404,2107,3538,0,
3439,3431,3539,0,
2352,3422,3540,0,
3008,3414,3541,0,
3423,3195,3542,0,
3446,3094,3543,0,
3436,2149,3544,0,
3087,3404,3545,0,
3447,2779,3546,0,
2237,3392,3547,0,
3392,3290,3548,0,
3416,3269,3549,0,
3334,3384,3550,0,
3451,3417,3551,0,
3455,3437,3552,0,
3457,3456,3553,0,
3459,0,3554,2,
3408,3508,3555,0,
3227,3464,3556,0,
3352,3462,3557,0,
3355,3463,3558,0,
2837,3461,3559,0,
3467,3466,3560,0,
3468,0,3561,2,
3465,0,3562,2,
3369,3471,3563,0,
3365,3469,3564,0,
3470,3473,3565,0,
3474,3240,3566,0,
3482,0,3567,2,
3481,3479,3568,0,
3478,3479,3569,0,
3480,0,3570,2,
3470,3360,3571,1,
3243,3477,3572,0,
3374,3476,3573,0,
3472,3468,3574,1,
3485,0,3575,2,
3465,3379,3576,0,
3081,3484,3577,0,
3487,0,3578,2,
2040,3488,3579,0,
3082,3485,3580,1,
3460,3514,3581,1,
3460,0,3582,2,
3514,0,3583,2,
3490,2575,3584,0,
3279,3492,3585,0,
3494,0,3586,2,
3497,2634,3587,0,
3499,2918,3588,0,
3493,3121,3589,0,
3498,2921,3590,0,
3280,3496,3591,0,
3495,1969,3592,0,
3491,2915,3593,0,
3503,2654,3594,0,
3500,1867,3595,0,
3501,3504,3596,0,
3502,2927,3597,0,
3507,2556,3598,0,
3505,3140,3599,0,
3514,3460,3600,0,
3509,2664,3601,0,
3510,3415,3602,0,
3513,3512,3603,0,
3508,3100,3604,0,
3515,2605,3605,0,
3517,2689,3606,0,
3418,3516,3607,0,
3518,2690,3608,0,
3520,3388,3609,0,
3521,3424,3610,0,
3523,2342,3611,0,
3522,3167,3612,0,
2556,3496,3613,0,
3524,3425,3614,0,
3526,2352,3615,0,
3527,2723,3616,0,
3526,3513,3617,0,
3529,2984,3618,0,
3528,2366,3619,0,
3501,2852,3620,0,
3530,2688,3621,0,
2987,3508,3622,0,
3532,2732,3623,0,
3493,2919,3624,0,
3512,3458,3625,0,
3534,2966,3626,0,
3533,2995,3627,0,
3535,3125,3628,0,
3537,1864,3629,0,
3538,2229,3630,0,
3539,3328,3631,0,
3540,3441,3632,0,
2597,3536,3633,0,
3544,1934,3634,0,
3458,2074,3635,0,
3347,3524,3636,0,
3546,3026,3637,0,
3202,3547,3638,0,
3448,3545,3639,0,
3548,2352,3640,0,
3548,3276,3641,0,
3340,3507,3642,0,
3513,3518,3643,0,
1983,3458,3644,0,
3553,0,3645,2,
3558,0,3646,2,
3556,0,3647,2,
3559,0,3648,2,
3557,0,3649,2,
3472,3561,3650,0,
3241,3562,3651,0,
3564,0,3652,2,
3563,0,3653,2,
3566,0,3654,2,
3565,0,3655,2,
3556,3366,3656,1,
3568,0,3657,2,
3572,3571,3658,0,
3571,0,3659,2,
3572,0,3660,2,
3573,0,3661,2,
3475,3557,3662,1,
3574,0,3663,2,
3073,3559,3664,1,
3577,0,3665,2,
3082,3575,3666,0,
3576,0,3667,2,
3579,0,3668,2,
3580,0,3669,2,
1445,3582,3670,0,
1598,3583,3671,0,
1513,3581,3672,0,
1447,3554,3673,0,
1597,3581,3674,0,
1460,3583,3675,0,
1303,3583,3676,0,
3584,2622,3677,0,
1447,3583,3678,0,
1275,3554,3679,0,
1516,3582,3680,0,
1445,3554,3681,0,
1294,3583,3682,0,
3460,3583,3683,0,
1214,3554,3684,0,
3592,2266,3685,0,
3593,3588,3686,0,
3591,3406,3687,0,
3589,2262,3688,0,
3399,3590,3689,0,
3587,2926,3690,0,
1979,3582,3691,0,
2268,3582,3692,0,
3585,3136,3693,0,
3586,3582,3694,0,
3594,2934,3695,0,
1605,3583,3696,0,
1460,3554,3697,0,
1303,3554,3698,0,
1610,3583,3699,0,
3596,0,3700,2,
1533,3554,3701,0,
3595,2280,3702,0,
3599,3296,3703,0,
1516,3583,3704,0,
1610,3582,3705,0,
3555,0,3706,2,
3598,3121,3707,0,
3604,2879,3708,0,
2943,3582,3709,0,
1978,3581,3710,0,
1793,3583,3711,0,
3602,3298,3712,0,
1445,3583,3713,0,
1598,3582,3714,0,
1603,3554,3715,0,
1598,3554,3716,0,
3603,3275,3717,0,
1754,3582,3718,0,
1610,3554,3719,0,
2303,3582,3720,0,
1527,3581,3721,0,
1533,3583,3722,0,
1516,3554,3723,0,
1605,3582,3724,0,
1603,3583,3725,0,
1603,3582,3726,0,
3607,3420,3727,0,
3157,3606,3728,0,
1294,3554,3729,0,
3519,3608,3730,0,
3609,3310,3731,0,
3610,3315,3732,0,
3612,3525,3733,0,
3611,2107,3734,0,
3614,2976,3735,0,
3613,2972,3736,0,
3615,3172,3737,0,
3617,2979,3738,0,
3619,2928,3739,0,
2985,3618,3740,0,
3620,2121,3741,0,
3622,3531,3742,0,
3434,3624,3743,0,
3625,3159,3744,0,
3627,3626,3745,0,
3593,2213,3746,0,
3628,3597,3747,0,
3590,3611,3748,0,
3597,2106,3749,0,
3629,2750,3750,0,
3300,3588,3751,0,
3630,2573,3752,0,
3440,3618,3753,0,
3643,3551,3754,0,
1794,3554,3755,0,
3642,3593,3756,0,
3553,3460,3757,0,
3632,3541,3758,0,
3619,2046,3759,0,
1793,3554,3760,0,
1794,3583,3761,0,
3542,3633,3762,0,
1754,3554,3763,0,
1294,3582,3764,0,
1754,3583,3765,0,
1794,3582,3766,0,
3634,2423,3767,0,
3635,2424,3768,0,
3636,3134,3769,0,
3640,3550,3770,0,
3639,3030,3771,0,
3641,3549,3772,0,
3644,3040,3773,0,
1605,3554,3774,0,
3645,3459,3775,1,
3645,3554,3776,0,
3631,3750,3777,0,
3552,3773,3778,0,
3772,3034,3779,0,
3366,3647,3780,0,
3475,3649,3781,0,
3560,3646,3782,0,
3238,3648,3783,0,
3651,0,3784,2,
3650,0,3785,2,
3654,3655,3786,0,
3658,0,3787,2,
3662,0,3788,2,
3656,0,3789,2,
3659,3660,3790,0,
3486,3661,3791,0,
3666,3578,3792,0,
3665,3249,3793,1,
3249,3665,3794,0,
3669,3578,3795,0,
1445,3645,3796,0,
3673,0,3797,2,
1598,3645,3798,0,
3670,0,3799,2,
3672,0,3800,2,
3671,0,3801,2,
1214,3645,3802,0,
3675,0,3803,2,
3674,0,3804,2,
3666,0,3805,2,
3681,0,3806,2,
3680,0,3807,2,
3678,0,3808,2,
1303,3645,3809,0,
3676,0,3810,2,
3677,2130,3811,0,
3679,0,3812,2,
3645,3683,3813,1,
3684,0,3814,2,
3682,0,3815,2,
1603,3645,3816,0,
1516,3645,3817,0,
1259,3691,3818,1,
1281,3692,3819,1,
3685,3677,3820,0,
3686,3407,3821,0,
3688,3506,3822,0,
3693,2938,3823,0,
3694,1294,3824,0,
3690,3597,3825,0,
3689,3409,3826,0,
3756,0,3827,2,
3687,3138,3828,0,
3416,3695,3829,0,
3701,0,3830,2,
3682,3700,3831,0,
1460,3645,3832,0,
3699,0,3833,2,
3696,0,3834,2,
3697,0,3835,2,
3698,0,3836,2,
3703,0,3837,2,
3705,0,3838,2,
3704,0,3839,2,
3754,0,3840,2,
1447,3645,3841,0,
1605,3645,3842,0,
3707,3601,3843,0,
1294,3645,3844,0,
3716,0,3845,2,
3710,0,3846,2,
3711,0,3847,2,
1294,3709,3848,1,
3715,0,3849,2,
3717,3149,3850,0,
3714,0,3851,2,
3712,0,3852,2,
3712,3706,3853,0,
3708,3605,3854,0,
3713,0,3855,2,
3719,0,3856,2,
1610,3645,3857,0,
1279,3720,3858,1,
3718,0,3859,2,
3723,0,3860,2,
1533,3645,3861,0,
3722,0,3862,2,
3721,0,3863,2,
3726,0,3864,2,
3725,0,3865,2,
3724,0,3866,2,
3729,0,3867,2,
3728,3307,3868,0,
3727,3158,3869,0,
3730,3160,3870,0,
3731,2967,3871,0,
3732,2971,3872,0,
3734,1855,3873,0,
3733,0,3874,2,
3735,3169,3875,0,
3737,2722,3876,0,
3738,2980,3877,0,
3740,2332,3878,0,
3739,1969,3879,0,
3621,3741,3880,0,
3742,3623,3881,0,
3743,3321,3882,0,
3744,3180,3883,0,
3745,3181,3884,0,
3746,3536,3885,0,
3747,3185,3886,0,
2747,3748,3887,0,
3751,3749,3888,0,
3752,2140,3889,0,
3757,0,3890,2,
3758,3009,3891,0,
3759,2069,3892,0,
1754,3645,3893,0,
1794,3645,3894,0,
3761,0,3895,2,
3760,0,3896,2,
3764,0,3897,2,
3762,3196,3898,0,
3763,0,3899,2,
1793,3645,3900,0,
3766,0,3901,2,
3131,3695,3902,0,
3765,0,3903,2,
3767,3768,3904,0,
3449,3690,3905,0,
3769,3339,3906,0,
3755,0,3907,2,
3770,3452,3908,0,
3774,0,3909,2,
3771,3343,3910,0,
3775,0,3911,2,
3778,3459,3912,1,
3776,0,3913,2,
1533,3827,3914,0,
3778,0,3915,2,
3780,0,3916,2,
3782,0,3917,2,
3783,0,3918,2,
3781,0,3919,2,
3784,3567,3920,0,
3653,3785,3921,0,
3786,3662,3922,0,
3786,0,3923,2,
3791,0,3924,2,
3248,3791,3925,0,
3792,0,3926,2,
3794,0,3927,2,
3383,3795,3928,0,
3796,0,3929,2,
3910,0,3930,2,
3248,3791,3931,1,
3798,0,3932,2,
3799,3800,3933,0,
3803,3804,3934,0,
3802,0,3935,2,
3809,0,3936,2,
3405,3811,3937,0,
3813,0,3938,2,
3815,3596,3939,1,
3826,3702,3940,0,
3828,2941,3941,0,
3819,1281,3942,0,
1597,3813,3943,0,
3817,0,3944,2,
3816,0,3945,2,
3822,3295,3946,0,
3820,1868,3947,0,
3819,1385,3948,1,
3821,0,3949,2,
3825,3511,3950,0,
3818,1259,3951,0,
3823,0,3952,2,
3832,0,3953,2,
1513,3813,3954,0,
1259,3818,3955,1,
3829,3297,3956,0,
3831,0,3957,2,
3843,2949,3958,0,
3827,3840,3959,0,
3842,0,3960,2,
3844,0,3961,2,
3837,3821,3962,1,
3841,0,3963,2,
3848,1391,3964,1,
3852,3706,3965,0,
3827,3754,3966,1,
3850,3303,3967,0,
3854,3153,3968,0,
3847,3846,3969,0,
1527,3813,3970,0,
3858,1374,3971,1,
3857,0,3972,2,
3862,3863,3973,0,
3848,1294,3974,0,
3861,0,3975,2,
1275,3827,3976,0,
1445,3827,3977,0,
1447,3827,3978,0,
1447,3840,3979,0,
3868,0,3980,2,
1516,3840,3981,0,
3858,1279,3982,0,
1610,3827,3983,0,
3867,3868,3984,1,
3869,0,3985,2,
3870,3309,3986,0,
1275,3840,3987,0,
1214,3827,3988,0,
1460,3827,3989,0,
1598,3827,3990,0,
1445,3840,3991,0,
1598,3840,3992,0,
3871,0,3993,2,
1303,3840,3994,0,
1610,3840,3995,0,
1303,3827,3996,0,
1214,3840,3997,0,
1460,3840,3998,0,
1516,3827,3999,0,
1793,3840,4000,0,
1754,3827,4001,0,
1794,3840,4002,0,
3872,0,4003,2,
3736,3873,4004,0,
3874,1231,4005,1,
1294,3827,4006,0,
3875,3171,4007,0,
3908,0,4008,2,
1794,3827,4009,0,
1754,3840,4010,0,
1294,3840,4011,0,
1212,3874,4012,0,
3779,0,4013,2,
3779,3908,4014,1,
3876,3616,4015,0,
3877,2983,4016,0,
3878,3879,4017,0,
3880,3174,4018,0,
3881,0,4019,2,
3881,1281,4020,0,
3883,2994,4021,0,
3882,0,4022,2,
3885,3325,4023,0,
3886,3327,4024,0,
3887,3187,4025,0,
3888,3189,4026,0,
3753,3889,4027,0,
3827,1603,4028,0,
3906,3344,4029,0,
3891,0,4030,2,
3777,0,4031,2,
3890,3583,4032,0,
3884,0,4033,2,
3543,3892,4034,0,
3893,0,4035,2,
3894,0,4036,2,
3898,3017,4037,0,
1603,3840,4038,0,
1605,3827,4039,0,
1978,3813,4040,0,
3900,0,4041,2,
3902,2121,4042,0,
3827,1793,4043,0,
3637,3904,4044,0,
3905,3450,4045,0,
1605,3840,4046,0,
3840,1533,4047,0,
4044,0,4048,2,
3911,3583,4049,0,
3915,1794,4050,0,
3376,3918,4051,0,
3570,3916,4052,0,
3652,3919,4053,0,
3569,3917,4054,0,
3920,3657,4055,0,
3921,0,4056,2,
3922,0,4057,2,
3788,3923,4058,0,
3921,3664,4059,1,
3925,0,4060,2,
3381,3924,4061,0,
3926,3668,4062,0,
3775,4032,4063,1,
1447,3915,4064,0,
3797,3929,4065,0,
1275,3915,4066,0,
3933,3808,4067,0,
3812,3935,4068,0,
3915,3910,4069,1,
3934,3807,4070,0,
3930,3756,4071,1,
1214,3915,4072,0,
1275,3930,4073,0,
3290,3937,4074,0,
3824,3939,4075,0,
3930,3827,4076,0,
3915,3930,4077,0,
1212,3938,4078,0,
3952,3941,4079,1,
3940,3823,4080,1,
3943,0,4081,2,
3967,0,4082,2,
3830,3945,4083,0,
1460,3930,4084,0,
1533,3915,4085,0,
1516,3915,4086,0,
1445,3915,4087,0,
3835,3944,4088,0,
3946,0,4089,2,
3947,2672,4090,0,
1447,3930,4091,0,
3821,3950,4092,1,
3706,3950,4093,1,
3953,3839,4094,0,
3948,0,4095,2,
3956,2677,4096,0,
3703,3941,4097,1,
3954,0,4098,2,
3941,0,4099,2,
3963,3855,4100,0,
1460,3915,4101,0,
3959,0,4102,2,
3961,3958,4103,1,
3958,0,4104,2,
3962,0,4105,2,
3969,3859,4106,0,
3965,0,4107,2,
3840,3967,4108,1,
3964,0,4109,2,
3966,0,4110,2,
3968,0,4111,2,
1598,3915,4112,0,
3970,0,4113,2,
1303,3915,4114,0,
1214,3930,4115,0,
1445,3930,4116,0,
1598,3930,4117,0,
3979,0,4118,2,
3977,0,4119,2,
3971,0,4120,2,
3976,0,4121,2,
3978,0,4122,2,
3975,3865,4123,0,
3973,3864,4124,0,
3940,0,4125,2,
3729,3980,4126,0,
3983,0,4127,2,
3981,0,4128,2,
1303,3930,4129,0,
1516,3930,4130,0,
1294,3915,4131,0,
3986,0,4132,2,
3988,0,4133,2,
3987,0,4134,2,
1610,3915,4135,0,
3989,0,4136,2,
3991,0,4137,2,
3990,0,4138,2,
3992,0,4139,2,
3994,0,4140,2,
1610,3930,4141,0,
3998,0,4142,2,
3999,0,4143,2,
3995,0,4144,2,
3996,0,4145,2,
1447,3985,4146,0,
1294,3930,4147,0,
3997,0,4148,2,
1794,3930,4149,0,
4002,0,4150,2,
4000,0,4151,2,
4001,0,4152,2,
1275,3985,4153,0,
4005,0,4154,2,
4004,2978,4155,0,
4005,4006,4156,1,
4007,0,4157,2,
1598,3985,4158,0,
4009,0,4159,2,
4010,0,4160,2,
4012,0,4161,2,
1214,3985,4162,0,
1447,4008,4163,0,
1445,3985,4164,0,
4008,4013,4165,0,
4015,0,4166,2,
4016,0,4167,2,
1605,3985,4168,0,
1303,3985,4169,0,
1447,4013,4170,0,
1445,4008,4171,0,
1793,3985,4172,0,
4029,0,4173,2,
1754,3985,4174,0,
1275,4008,4175,0,
1460,4008,4176,0,
1275,4013,4177,0,
1214,4008,4178,0,
4017,2986,4179,0,
1598,4013,4180,0,
1598,4008,4181,0,
1445,4013,4182,0,
1460,4013,4183,0,
1516,4008,4184,0,
1794,3985,4185,0,
1603,4008,4186,0,
1533,4013,4187,0,
1214,4013,4188,0,
1303,4013,4189,0,
1303,4008,4190,0,
4018,0,4191,2,
1793,4008,4192,0,
4019,1385,4193,0,
4020,0,4194,2,
1294,3985,4195,0,
1605,4008,4196,0,
1603,4013,4197,0,
1793,4013,4198,0,
1754,4008,4199,0,
1605,4013,4200,0,
1794,4008,4201,0,
1754,4013,4202,0,
4021,0,4203,2,
1794,4013,4204,0,
1294,4008,4205,0,
4023,3326,4206,0,
4024,0,4207,2,
4025,3002,4208,0,
4026,3004,4209,0,
4027,3005,4210,0,
3986,3968,4211,0,
1516,4013,4212,0,
3985,1610,4213,0,
4045,3033,4214,0,
4030,4024,4215,1,
4024,4030,4216,0,
1610,4008,4217,0,
4046,0,4218,2,
3930,1605,4219,0,
1603,3930,4220,0,
4047,0,4221,2,
4028,0,4222,2,
1294,4013,4223,0,
1793,3915,4224,0,
3896,4035,4225,0,
4034,3016,4226,0,
1610,4013,4227,0,
1533,3985,4228,0,
4038,0,4229,2,
4039,0,4230,2,
4040,0,4231,2,
1460,3985,4232,0,
4041,3903,4233,0,
3939,3824,4234,1,
3930,1754,4235,0,
3638,4042,4236,0,
1533,4008,4237,0,
1605,3915,4238,0,
3914,0,4239,2,
1793,3930,4240,0,
1754,3915,4241,0,
1533,3930,4242,0,
1603,3915,4243,0,
3554,3915,4244,0,
4043,0,4245,2,
1516,3985,4246,0,
1603,3985,4247,0,
4247,0,4248,2,
1605,4048,4249,0,
4049,3890,4250,0,
4244,0,4251,2,
4214,0,4252,2,
4209,0,4253,2,
4050,0,4254,2,
4054,0,4255,2,
3656,4053,4256,0,
4053,0,4257,2,
4052,0,4258,2,
3483,4051,4259,1,
4051,0,4260,2,
4056,3664,4261,0,
3787,4057,4262,0,
3790,4057,4263,0,
4058,0,4264,2,
3793,4060,4265,0,
4061,0,4266,2,
4059,0,4267,2,
4062,0,4268,2,
4063,0,4269,2,
4064,0,4270,2,
3656,4053,4271,1,
4066,0,4272,2,
4072,0,4273,2,
1259,4067,4274,1,
4070,0,4275,2,
4073,0,4276,2,
4071,0,4277,2,
4069,0,4278,2,
4074,1888,4279,0,
4075,0,4280,2,
3600,4078,4281,0,
4076,0,4282,2,
4077,0,4283,2,
4081,3838,4284,0,
4089,3940,4285,1,
4085,0,4286,2,
3840,4082,4287,0,
4086,0,4288,2,
4084,0,4289,2,
4093,4092,4290,0,
4093,0,4291,2,
4087,0,4292,2,
4091,0,4293,2,
4080,4079,4294,0,
4079,0,4295,2,
4096,0,4296,2,
4098,3851,4297,0,
4097,3962,4298,0,
4082,3968,4299,1,
4101,0,4300,2,
3844,4104,4301,0,
4108,0,4302,2,
4105,4099,4303,0,
4090,3946,4304,1,
3942,4070,4305,0,
4090,0,4306,2,
1294,4106,4307,1,
4114,0,4308,2,
4115,0,4309,2,
4116,0,4310,2,
4117,0,4311,2,
4112,0,4312,2,
4113,3866,4313,0,
4082,4111,4314,0,
1597,4108,4315,0,
4118,4119,4316,0,
1460,4082,4317,0,
4048,3869,4318,1,
1279,4124,4319,1,
4155,0,4320,2,
4048,3985,4321,0,
4126,0,4322,2,
4111,3986,4323,1,
4131,0,4324,2,
1447,4082,4325,0,
4129,0,4326,2,
4130,0,4327,2,
1447,4111,4328,0,
1445,4082,4329,0,
1610,4082,4330,0,
1460,4132,4331,0,
1516,4111,4332,0,
4135,0,4333,2,
1275,4111,4334,0,
1214,4082,4335,0,
4134,4133,4336,0,
1275,4082,4337,0,
1460,4111,4338,0,
1516,4082,4339,0,
4131,3993,4340,0,
4141,0,4341,2,
1445,4048,4342,0,
1598,4132,4343,0,
4146,0,4344,2,
1754,4082,4345,0,
1793,4111,4346,0,
4147,0,4347,2,
1598,4082,4348,0,
4149,0,4349,2,
1445,4111,4350,0,
1447,4132,4351,0,
1303,4111,4352,0,
4151,4152,4353,0,
1214,4132,4354,0,
1275,4048,4355,0,
4147,4003,4356,0,
1214,4048,4357,0,
1303,4132,4358,0,
1275,4132,4359,0,
1214,4111,4360,0,
1303,4082,4361,0,
1447,4048,4362,0,
1445,4132,4363,0,
4153,0,4364,2,
1793,4082,4365,0,
1598,4111,4366,0,
4154,3827,4367,0,
3985,4155,4368,1,
1793,4048,4369,0,
1754,4132,4370,0,
4158,0,4371,2,
1794,4111,4372,0,
4157,1231,4373,1,
4156,0,4374,2,
4097,4099,4375,0,
1303,4048,4376,0,
1294,4082,4377,0,
4157,1231,4378,0,
1598,4048,4379,0,
4162,0,4380,2,
4163,0,4381,2,
1794,4082,4382,0,
1793,4132,4383,0,
1754,4111,4384,0,
4164,0,4385,2,
4165,0,4386,2,
4167,1299,4387,1,
1294,4111,4388,0,
3779,4214,4389,1,
4168,0,4390,2,
4169,0,4391,2,
1754,4048,4392,0,
1794,4132,4393,0,
4172,0,4394,2,
4170,0,4395,2,
4171,0,4396,2,
1794,4048,4397,0,
4167,1299,4398,0,
4214,4029,4399,1,
1294,4132,4400,0,
1447,4173,4401,0,
4174,0,4402,2,
4175,0,4403,2,
4176,0,4404,2,
4178,0,4405,2,
4177,0,4406,2,
4180,0,4407,2,
4179,0,4408,2,
4184,0,4409,2,
4183,0,4410,2,
1445,4173,4411,0,
4181,0,4412,2,
4182,0,4413,2,
1294,4048,4414,0,
4185,0,4415,2,
4187,0,4416,2,
4186,0,4417,2,
1275,4173,4418,0,
4189,0,4419,2,
4188,0,4420,2,
4190,0,4421,2,
1302,4173,4422,0,
4192,0,4423,2,
4193,0,4424,2,
1214,4173,4425,0,
1303,4173,4426,0,
4195,0,4427,2,
4196,0,4428,2,
4197,0,4429,2,
1533,4173,4430,0,
1603,4173,4431,0,
4200,0,4432,2,
4198,0,4433,2,
4199,0,4434,2,
1605,4173,4435,0,
4201,0,4436,2,
4202,0,4437,2,
4203,1374,4438,1,
1793,4173,4439,0,
4204,0,4440,2,
4206,0,4441,2,
4132,4044,4442,1,
4211,0,4443,2,
4111,4132,4444,0,
4096,3937,4445,0,
4246,0,4446,2,
4237,0,4447,2,
1603,4082,4448,0,
4213,0,4449,2,
4243,0,4450,2,
4242,0,4451,2,
1610,4048,4452,0,
1294,4173,4453,0,
4216,0,4454,2,
4031,4209,4455,1,
4209,4031,4456,0,
4241,0,4457,2,
4240,0,4458,2,
4238,0,4459,2,
1610,4111,4460,0,
4236,3031,4461,0,
3290,4096,4462,0,
1516,4173,4463,0,
4210,0,4464,2,
1610,4173,4465,0,
4203,1374,4466,0,
1605,4082,4467,0,
4223,0,4468,2,
1603,4111,4469,0,
1533,4132,4470,0,
1754,4173,4471,0,
3891,4223,4472,0,
1605,4111,4473,0,
1533,4048,4474,0,
1603,4132,4475,0,
1794,4173,4476,0,
4224,0,4477,2,
1460,4173,4478,0,
3897,4226,4479,1,
1533,4082,4480,0,
1603,4048,4481,0,
1605,4132,4482,0,
4227,0,4483,2,
4228,0,4484,2,
1516,4132,4485,0,
1460,4048,4486,0,
1516,4048,4487,0,
4231,3901,4488,0,
4232,0,4489,2,
4234,0,4490,2,
1610,4132,4491,0,
1533,4111,4492,0,
4222,4221,4493,0,
4219,0,4494,2,
4220,0,4495,2,
4235,0,4496,2,
4132,4048,4497,0,
4217,0,4498,2,
4212,0,4499,2,
1598,4173,4500,0,
4250,0,4501,2,
4496,4245,4502,0,
4256,0,4503,2,
4258,3663,4504,1,
4055,4255,4505,0,
4259,0,4506,2,
3789,4257,4507,0,
3663,4258,4508,0,
4262,3667,4509,0,
4263,0,4510,2,
3483,4260,4511,0,
4266,3927,4512,0,
4265,0,4513,2,
3250,4268,4514,0,
1513,4269,4515,0,
1302,4269,4516,0,
4270,3806,4517,0,
1527,4269,4518,0,
1597,4269,4519,0,
4272,3814,4520,0,
4261,0,4521,2,
4278,4277,4522,0,
4275,1385,4523,1,
4274,0,4524,2,
4276,4273,4525,0,
4279,0,4526,2,
4274,3951,4527,1,
4283,4282,4528,0,
3957,4280,4529,0,
4287,0,4530,2,
4289,4288,4531,0,
4293,4292,4532,0,
4094,4284,4533,0,
4285,0,4534,2,
4286,3849,4535,0,
4100,4297,4536,0,
4497,0,4537,2,
4301,0,4538,2,
4300,3860,4539,0,
4444,0,4540,2,
4291,3949,4541,0,
3852,4291,4542,0,
4299,0,4543,2,
4279,4096,4544,0,
4110,4302,4545,0,
4298,4099,4546,0,
4290,3949,4547,0,
4304,4285,4548,0,
4307,3974,4549,1,
4122,4310,4550,0,
4102,4302,4551,0,
4123,4313,4552,0,
3959,4315,4553,0,
4314,0,4554,2,
4121,4309,4555,0,
4319,3982,4556,1,
4317,0,4557,2,
4295,4125,4558,0,
4318,0,4559,2,
3985,4320,4560,0,
4319,0,4561,2,
4294,4125,4562,0,
4321,0,4563,2,
4324,3871,4564,1,
4136,4327,4565,0,
4325,0,4566,2,
4330,0,4567,2,
4332,0,4568,2,
4331,0,4569,2,
4329,0,4570,2,
4328,0,4571,2,
4335,0,4572,2,
4334,0,4573,2,
4340,0,4574,2,
4461,4155,4575,1,
4339,0,4576,2,
4338,0,4577,2,
4461,0,4578,2,
4337,0,4579,2,
4341,4142,4580,0,
4342,0,4581,2,
4303,0,4582,2,
4347,3872,4583,1,
4346,0,4584,2,
4345,0,4585,2,
4343,0,4586,2,
4351,0,4587,2,
4350,0,4588,2,
4348,0,4589,2,
4356,0,4590,2,
3908,4461,4591,1,
4354,0,4592,2,
4357,0,4593,2,
4355,0,4594,2,
4358,0,4595,2,
4352,0,4596,2,
4363,0,4597,2,
4362,0,4598,2,
1445,4320,4599,0,
4361,0,4600,2,
4360,0,4601,2,
4359,0,4602,2,
4366,0,4603,2,
4367,1294,4604,0,
4365,0,4605,2,
4369,0,4606,2,
1275,4320,4607,0,
4370,0,4608,2,
4011,4373,4609,0,
1598,4320,4610,0,
4375,0,4611,2,
4372,0,4612,2,
1447,4320,4613,0,
4378,0,4614,2,
4376,0,4615,2,
4011,4373,4616,1,
4377,0,4617,2,
4379,0,4618,2,
4382,0,4619,2,
4384,0,4620,2,
4383,0,4621,2,
4377,4166,4622,0,
1603,4320,4623,0,
1214,4320,4624,0,
4013,4252,4625,0,
4387,4388,4626,1,
4393,0,4627,2,
4392,0,4628,2,
1793,4320,4629,0,
1303,4320,4630,0,
4388,4387,4631,0,
1610,4320,4632,0,
4397,0,4633,2,
1445,4252,4634,0,
4400,0,4635,2,
4398,0,4636,2,
4401,0,4637,2,
1447,4252,4638,0,
1754,4320,4639,0,
4252,4173,4640,0,
4411,0,4641,2,
4410,4409,4642,0,
1598,4252,4643,0,
4400,4408,4644,0,
4414,0,4645,2,
1275,4252,4646,0,
1214,4252,4647,0,
4418,0,4648,2,
1794,4320,4649,0,
4416,4417,4650,0,
4414,4191,4651,0,
4426,0,4652,2,
4425,0,4653,2,
4194,4424,4654,0,
1303,4252,4655,0,
1533,4252,4656,0,
1294,4320,4657,0,
1603,4252,4658,0,
4430,0,4659,2,
4431,0,4660,2,
1605,4252,4661,0,
4433,4434,4662,0,
1793,4252,4663,0,
4435,0,4664,2,
1754,4252,4665,0,
4439,0,4666,2,
4438,3884,4667,1,
4441,1391,4668,1,
4441,1391,4669,0,
4253,4210,4670,1,
4458,4457,4671,0,
1605,4320,4672,0,
1460,4320,4673,0,
1294,4252,4674,0,
4456,0,4675,2,
4493,4494,4676,0,
4239,4495,4677,0,
4491,0,4678,2,
4253,3777,4679,0,
4210,4253,4680,0,
4462,3685,4681,0,
1610,4252,4682,0,
4463,0,4683,2,
4438,4033,4684,0,
4466,0,4685,2,
4465,0,4686,2,
1794,4252,4687,0,
4470,0,4688,2,
4471,0,4689,2,
4467,0,4690,2,
4468,3891,4691,1,
4469,0,4692,2,
1978,4269,4693,0,
4307,0,4694,2,
4472,0,4695,2,
4473,0,4696,2,
4475,0,4697,2,
4474,0,4698,2,
4476,0,4699,2,
1516,4252,4700,0,
4477,3899,4701,0,
4445,0,4702,2,
4479,0,4703,2,
4478,0,4704,2,
4480,0,4705,2,
4482,0,4706,2,
4481,0,4707,2,
4320,1516,4708,0,
4487,0,4709,2,
4233,4488,4710,0,
4485,0,4711,2,
4486,0,4712,2,
4492,0,4713,2,
4448,0,4714,2,
4451,4450,4715,0,
1533,4320,4716,0,
4249,0,4717,2,
4452,0,4718,2,
4368,0,4719,2,
4442,0,4720,2,
4460,0,4721,2,
1460,4252,4722,0,
4500,0,4723,2,
4716,0,4724,2,
3913,4501,4725,0,
4504,4503,4726,0,
4261,4506,4727,0,
4507,0,4728,2,
4505,0,4729,2,
4508,0,4730,2,
4511,0,4731,2,
4510,4264,4732,0,
4267,4506,4733,0,
4513,3927,4734,0,
4514,0,4735,2,
4515,0,4736,2,
4516,0,4737,2,
4519,0,4738,2,
4518,0,4739,2,
4524,1259,4740,0,
4525,3836,4741,0,
4523,3942,4742,1,
4526,4090,4743,1,
4527,0,4744,2,
4529,0,4745,2,
4531,3856,4746,0,
4102,4530,4747,0,
1281,4533,4748,1,
4523,0,4749,2,
1259,4536,4750,1,
4534,4306,4751,0,
4544,0,4752,2,
4554,4540,4753,0,
4548,4306,4754,0,
4547,0,4755,2,
4546,0,4756,2,
1279,4552,4757,1,
4553,0,4758,2,
4551,1597,4759,0,
4541,0,4760,2,
4549,0,4761,2,
4557,4128,4762,0,
4562,0,4763,2,
4561,1279,4764,0,
4556,0,4765,2,
4560,0,4766,2,
4566,4137,4767,0,
4565,4333,4768,0,
4573,4572,4769,0,
4569,4568,4770,0,
4571,4570,4771,0,
4579,4148,4772,0,
4577,4576,4773,0,
4320,4578,4774,0,
4344,4581,4775,0,
4584,4585,4776,0,
4587,4588,4777,0,
4594,4592,4778,0,
4578,4008,4779,0,
4364,4593,4780,0,
1447,4578,4781,0,
4598,4597,4782,0,
4599,0,4783,2,
4602,4601,4784,0,
4604,0,4785,2,
1445,4578,4786,0,
4605,4160,4787,0,
4558,0,4788,2,
4607,0,4789,2,
4606,4608,4790,0,
4609,0,4791,2,
4610,0,4792,2,
4611,4582,4793,0,
4613,0,4794,2,
4617,4015,4795,1,
4621,4620,4796,0,
1533,4578,4797,0,
1275,4578,4798,0,
4622,0,4799,2,
4623,0,4800,2,
4624,0,4801,2,
1598,4578,4802,0,
4625,0,4803,2,
1214,4578,4804,0,
4394,4628,4805,0,
1516,4578,4806,0,
4629,0,4807,2,
1303,4578,4808,0,
4631,0,4809,2,
4632,0,4810,2,
4634,0,4811,2,
4630,0,4812,2,
4635,4179,4813,1,
1610,4578,4814,0,
4638,0,4815,2,
1793,4578,4816,0,
4639,0,4817,2,
4640,0,4818,2,
1605,4578,4819,0,
4643,0,4820,2,
4644,0,4821,2,
4645,4018,4822,1,
4647,0,4823,2,
1754,4578,4824,0,
4646,0,4825,2,
4649,0,4826,2,
4651,0,4827,2,
4655,0,4828,2,
4427,4654,4829,1,
4654,0,4830,2,
4656,0,4831,2,
1794,4578,4832,0,
4657,0,4833,2,
4658,0,4834,2,
4661,0,4835,2,
1294,4578,4836,0,
4663,0,4837,2,
4657,4022,4838,0,
4665,0,4839,2,
4667,4205,4840,1,
4668,4207,4841,0,
4669,0,4842,2,
4673,0,4843,2,
1294,4710,4844,1,
4681,3013,4845,0,
4674,4215,4846,0,
4668,4024,4847,1,
4712,4711,4848,0,
4103,4529,4849,1,
4443,4720,4850,0,
4679,0,4851,2,
4680,0,4852,2,
4682,0,4853,2,
4684,0,4854,2,
4667,0,4855,2,
4688,4692,4856,0,
4687,0,4857,2,
4691,0,4858,2,
4694,1294,4859,0,
4693,0,4860,2,
4698,4697,4861,0,
4215,4674,4862,1,
4700,0,4863,2,
4705,4229,4864,0,
4484,4707,4865,0,
4578,1460,4866,0,
4545,4543,4867,0,
4713,4714,4868,0,
4677,4459,4869,0,
4715,3909,4870,0,
4502,4254,4871,0,
4708,0,4872,2,
4489,4709,4873,0,
4672,0,4874,2,
1603,4578,4875,0,
4722,0,4876,2,
4725,0,4877,2,
4728,4730,4878,0,
4727,0,4879,2,
4509,4729,4880,0,
4726,0,4881,2,
4265,4733,4882,0,
4734,0,4883,2,
3489,4735,4884,0,
4732,4728,4885,0,
4736,3801,4886,0,
4737,3810,4887,0,
4739,3834,4888,0,
4738,3833,4889,0,
4740,3818,4890,0,
4742,0,4891,2,
4743,0,4892,2,
4103,4745,4893,0,
4748,0,4894,2,
4747,0,4895,2,
4749,1281,4896,0,
4750,0,4897,2,
4743,4752,4898,0,
4754,0,4899,2,
4127,4758,4900,0,
4757,0,4901,2,
4764,3858,4902,0,
4563,4766,4903,0,
4774,0,4904,2,
4775,4586,4905,0,
4760,4755,4906,0,
4779,0,4907,2,
4781,0,4908,2,
4782,4603,4909,0,
4786,0,4910,2,
4161,4785,4911,0,
4792,4381,4912,0,
4789,4380,4913,0,
4614,4791,4914,0,
4618,4794,4915,0,
4797,0,4916,2,
4798,0,4917,2,
4802,0,4918,2,
4807,4402,4919,0,
4804,0,4920,2,
4806,0,4921,2,
4636,4809,4922,0,
4808,0,4923,2,
4637,4811,4924,0,
4814,0,4925,2,
4412,4815,4926,0,
4816,0,4927,2,
4819,0,4928,2,
4824,0,4929,2,
4648,4823,4930,0,
4825,4420,4931,0,
4763,4788,4932,0,
4831,4429,4933,0,
4195,4830,4934,0,
4832,0,4935,2,
4833,3882,4936,1,
4659,4834,4937,0,
4836,0,4938,2,
4021,4836,4939,0,
4837,4437,4940,0,
4666,4839,4941,0,
4841,0,4942,2,
4875,0,4943,2,
4849,0,4944,2,
4876,4499,4945,0,
4850,0,4946,2,
4846,0,4947,2,
4847,4453,4948,1,
4847,0,4949,2,
4843,4446,4950,0,
4844,0,4951,2,
4724,4248,4952,0,
4751,0,4953,2,
4670,4851,4954,0,
4464,4845,4955,1,
4845,4464,4956,0,
4840,0,4957,2,
4205,4855,4958,0,
4685,4854,4959,0,
4845,0,4960,2,
4859,3848,4961,0,
4860,3895,4962,0,
4704,4863,4963,0,
4866,0,4964,2,
4877,3912,4965,0,
4880,0,4966,2,
4879,4731,4967,0,
4878,4732,4968,0,
4881,4730,4969,0,
4884,0,4970,2,
4877,3912,4971,1,
4065,4886,4972,0,
4068,4887,4973,0,
4083,4888,4974,0,
4088,4889,4975,0,
4893,0,4976,2,
4305,4894,4977,0,
4895,4543,4978,0,
4896,3819,4979,0,
4900,4762,4980,0,
4371,4908,4981,0,
4616,4911,4982,1,
4914,0,4983,2,
4911,0,4984,2,
4795,4914,4985,1,
4916,4800,4986,0,
4917,4801,4987,0,
4918,4395,4988,0,
4404,4921,4989,0,
4403,4920,4990,0,
4922,0,4991,2,
4813,4922,4992,1,
4924,4407,4993,0,
4923,4406,4994,0,
4927,4817,4995,0,
4423,4929,4996,0,
4934,0,4997,2,
4936,4020,4998,1,
4936,4194,4999,0,
4938,4021,5000,1,
4939,0,5001,2,
4842,4942,5002,0,
4960,4445,5003,1,
4872,4964,5004,0,
4961,4037,5005,1,
4454,4947,5006,0,
4948,0,5007,2,
4453,4949,5008,0,
4447,4943,5009,0,
4899,4953,5010,0,
4956,0,5011,2,
4958,0,5012,2,
4959,0,5013,2,
4691,4959,5014,1,
4445,4960,5015,0,
4225,4962,5016,0,
4961,0,5017,2,
4946,4537,5018,0,
4965,0,5019,2,
4951,5005,5020,0,
4969,0,5021,2,
4968,4966,5022,0,
4967,4512,5023,0,
2542,4970,5024,0,
4885,4966,5025,0,
4966,4730,5026,0,
4732,4966,5027,0,
1513,4971,5028,0,
1302,4971,5029,0,
4967,0,5030,2,
1259,4972,5031,1,
1212,4973,5032,1,
1527,4971,5033,0,
1279,4974,5034,1,
1281,4975,5035,1,
1597,4971,5036,0,
4979,4748,5037,1,
4538,4976,5038,0,
4978,0,5039,2,
4979,4894,5040,0,
5018,0,5041,2,
4982,0,5042,2,
4985,0,5043,2,
4795,4983,5044,0,
4616,4984,5045,0,
4813,4991,5046,0,
4992,0,5047,2,
4998,0,5048,2,
5000,0,5049,2,
4999,0,5050,2,
5000,4838,5051,1,
5002,4208,5052,0,
4208,5002,5053,1,
5005,0,5054,2,
5006,0,5055,2,
5008,0,5056,2,
4037,5017,5057,0,
4858,5013,5058,0,
1978,4971,5059,0,
5015,0,5060,2,
1294,5016,5061,1,
5004,4449,5062,0,
4251,5019,5063,0,
5020,0,5064,2,
4882,5021,5065,0,
5022,0,5066,2,
5023,0,5067,2,
5024,0,5068,2,
5026,4885,5069,0,
5025,0,5070,2,
5028,0,5071,2,
5021,4267,5072,0,
5027,0,5073,2,
5029,0,5074,2,
3931,5030,5075,0,
5031,0,5076,2,
5027,4271,5077,1,
5032,0,5078,2,
5033,0,5079,2,
5034,0,5080,2,
5035,0,5081,2,
5036,0,5082,2,
5039,4537,5083,0,
5038,0,5084,2,
5037,0,5085,2,
4554,5039,5086,0,
5041,4719,5087,0,
5044,0,5088,2,
5045,0,5089,2,
5046,0,5090,2,
4838,5049,5091,0,
5051,0,5092,2,
5052,0,5093,2,
4844,5054,5094,1,
5007,5055,5095,0,
5053,0,5096,2,
5061,4703,5097,1,
5058,0,5098,2,
5059,0,5099,2,
5061,0,5100,2,
5057,0,5101,2,
4753,5039,5102,0,
3984,5038,5103,1,
5055,5007,5104,1,
4069,5063,5105,1,
4883,5067,5106,0,
5065,5066,5107,0,
5068,2906,5108,0,
4726,5070,5109,0,
5069,0,5110,2,
5072,4506,5111,0,
5071,3932,5112,0,
4271,5073,5113,0,
5075,0,5114,2,
5074,3936,5115,0,
5063,0,5116,2,
3948,5076,5117,1,
4281,5078,5118,0,
5078,3955,5119,0,
5077,3940,5120,1,
5077,0,5121,2,
5077,3821,5122,1,
5079,3960,5123,0,
4095,5076,5124,0,
5077,3941,5125,1,
4109,5080,5126,0,
5082,3972,5127,0,
3971,5081,5128,1,
4303,5077,5129,0,
4541,5077,5130,0,
5077,4090,5131,1,
4120,5081,5132,0,
4751,5077,5133,0,
5083,4753,5134,0,
5077,4096,5135,1,
3984,5084,5136,0,
4558,5077,5137,0,
3964,5080,5138,1,
4799,5088,5139,0,
4821,5090,5140,0,
5091,0,5141,2,
5093,3777,5142,1,
5086,4540,5143,0,
5095,0,5144,2,
3777,5093,5145,0,
5103,0,5146,2,
4209,5093,5147,1,
5147,3777,5148,0,
4209,5148,5149,1,
4695,5098,5150,0,
5099,4036,5151,0,
5097,5101,5152,0,
5100,4479,5153,0,
5097,5057,5154,1,
1527,5105,5155,0,
5106,0,5156,2,
5107,0,5157,2,
3931,5110,5158,0,
5072,5110,5159,0,
5109,0,5160,2,
4517,5112,5161,0,
5113,0,5162,2,
5111,5110,5163,0,
5114,4266,5164,0,
4520,5115,5165,0,
1302,5105,5166,0,
4278,5116,5167,0,
1513,5105,5168,0,
4522,5116,5169,0,
5117,0,5170,2,
1597,5105,5171,0,
4294,5120,5172,0,
5118,0,5173,2,
5119,0,5174,2,
5121,4296,5175,0,
4290,5122,5176,0,
5121,4093,5177,0,
5121,4534,5178,0,
5121,4892,5179,0,
4535,5123,5180,0,
5121,4295,5181,0,
5128,0,5182,2,
5121,4105,5183,0,
4298,5125,5184,0,
4539,5127,5185,0,
5126,0,5186,2,
4548,5131,5187,0,
5130,0,5188,2,
5129,0,5189,2,
4898,5135,5190,0,
5132,0,5191,2,
5133,0,5192,2,
5134,0,5193,2,
5128,5040,5194,1,
5136,0,5195,2,
5137,0,5196,2,
4626,5139,5197,1,
5139,0,5198,2,
4822,5140,5199,1,
5140,0,5200,2,
5001,5141,5201,0,
4954,5142,5202,0,
1978,5105,5203,0,
5056,5144,5204,0,
5145,4455,5205,0,
4954,5149,5206,0,
4862,5150,5207,1,
4701,5151,5208,0,
5150,0,5209,2,
5145,0,5210,2,
5152,0,5211,2,
5153,0,5212,2,
5124,0,5213,2,
5154,0,5214,2,
5138,0,5215,2,
5155,0,5216,2,
5157,5156,5217,0,
5158,5111,5218,0,
5159,0,5219,2,
5160,4730,5220,0,
5163,0,5221,2,
1259,5161,5222,1,
5162,4728,5223,0,
5166,0,5224,2,
1212,5165,5225,1,
5167,0,5226,2,
5168,0,5227,2,
5169,0,5228,2,
4890,5170,5229,0,
5172,0,5230,2,
5173,5174,5231,0,
5171,0,5232,2,
1279,5180,5233,1,
5178,0,5234,2,
5175,0,5235,2,
5176,0,5236,2,
5179,0,5237,2,
5177,0,5238,2,
4902,5215,5239,0,
5183,0,5240,2,
4977,5182,5241,0,
1281,5185,5242,1,
5181,0,5243,2,
5184,0,5244,2,
5188,4755,5245,0,
4756,5189,5246,0,
5187,0,5247,2,
5190,0,5248,2,
4559,5193,5249,0,
5192,4899,5250,0,
4322,5195,5251,0,
5194,0,5252,2,
5196,4763,5253,0,
5197,0,5254,2,
4626,5198,5255,0,
5199,0,5256,2,
4822,5200,5257,0,
4840,5201,5258,1,
5053,5204,5259,1,
5204,0,5260,2,
5205,0,5261,2,
5206,0,5262,2,
5201,0,5263,2,
5207,0,5264,2,
1294,5208,5265,1,
4862,5209,5266,0,
5203,0,5267,2,
5202,4955,5268,0,
5212,5211,5269,0,
4870,5216,5270,0,
5217,0,5271,2,
3580,5217,5272,1,
5219,4521,5273,0,
4059,5220,5274,1,
5218,0,5275,2,
4504,5223,5276,1,
5222,0,5277,2,
4967,5221,5278,0,
4741,5224,5279,0,
5225,0,5280,2,
5226,4283,5281,0,
5227,3845,5282,0,
4528,5228,5283,0,
4746,5232,5284,0,
4527,5225,5285,0,
5233,0,5286,2,
5239,0,5287,2,
5241,0,5288,2,
5242,0,5289,2,
5246,0,5290,2,
5250,0,5291,2,
5245,0,5292,2,
5087,5249,5293,0,
5251,0,5294,2,
5253,0,5295,2,
5249,5041,5296,0,
4564,5251,5297,1,
5255,0,5298,2,
5257,0,5299,2,
5258,0,5300,2,
5142,5259,5301,0,
5267,3907,5302,0,
5265,4490,5303,1,
5269,0,5304,2,
5096,5260,5305,0,
5261,4675,5306,0,
5262,4852,5307,0,
4957,5263,5308,0,
5265,0,5309,2,
5266,0,5310,2,
1279,5270,5311,1,
4259,5273,5312,1,
3928,5271,5313,0,
3669,5271,5314,0,
3250,5271,5315,0,
3795,5271,5316,0,
5272,0,5317,2,
5274,3940,5318,1,
5164,5275,5319,0,
4742,5277,5320,1,
3931,5278,5321,1,
5274,3941,5322,1,
5274,3821,5323,1,
5276,3940,5324,1,
5276,3821,5325,1,
3555,5274,5326,1,
1212,5279,5327,1,
5280,4744,5328,0,
5272,3941,5329,1,
4532,5282,5330,0,
5272,3940,5331,1,
4071,5281,5332,1,
4891,5277,5333,0,
3966,5283,5334,1,
5276,3941,5335,1,
5283,0,5336,2,
3965,5276,5337,0,
5274,4090,5338,1,
5285,0,5339,2,
5238,5276,5340,0,
1281,5284,5341,1,
5274,4096,5342,1,
5276,4090,5343,1,
4549,5286,5344,1,
5276,4096,5345,1,
5287,5186,5346,0,
4556,5289,5347,1,
5191,5288,5348,0,
5272,4090,5349,1,
4761,5286,5350,0,
5293,0,5351,2,
4765,5289,5352,0,
4564,5294,5353,0,
5272,4096,5354,1,
5276,0,5355,2,
5274,4296,5356,0,
5296,0,5357,2,
5297,0,5358,2,
5272,4296,5359,0,
4827,5299,5360,0,
5305,0,5361,2,
5307,0,5362,2,
5308,0,5363,2,
5303,5269,5364,1,
5309,4234,5365,0,
4671,5302,5366,0,
5303,5304,5367,0,
5311,0,5368,2,
1527,5334,5369,0,
5313,0,5370,2,
5314,0,5371,2,
5315,3795,5372,0,
5316,0,5373,2,
3949,5317,5374,1,
3793,5319,5375,1,
5312,3941,5376,1,
5312,3821,5377,1,
5318,0,5378,2,
5323,0,5379,2,
5321,0,5380,2,
3555,5312,5381,1,
4294,5324,5382,0,
5321,3941,5383,1,
5320,0,5384,2,
3706,5317,5385,1,
5322,0,5386,2,
5324,4295,5387,0,
5325,4291,5388,0,
5329,0,5389,2,
5326,0,5390,2,
5327,0,5391,2,
5312,3940,5392,1,
5321,3821,5393,1,
5328,0,5394,2,
5331,0,5395,2,
4290,5325,5396,0,
1513,5332,5397,0,
1259,5330,5398,1,
5312,4090,5399,1,
5333,0,5400,2,
5327,4890,5401,1,
1302,5332,5402,0,
5321,3940,5403,1,
1513,5334,5404,0,
5337,4542,5405,1,
5405,5121,5406,0,
5337,5406,5407,1,
5335,4105,5408,0,
5338,0,5409,2,
5321,4090,5410,1,
4110,5336,5411,0,
5343,4534,5412,0,
5312,4096,5413,1,
5342,0,5414,2,
5340,3853,5415,0,
4548,5343,5416,0,
4545,5336,5417,0,
5186,5341,5418,0,
4898,5345,5419,0,
5345,4892,5420,0,
4298,5335,5421,0,
5344,0,5422,2,
1302,5334,5423,0,
4902,5341,5424,1,
5346,0,5425,2,
5347,5348,5426,1,
5349,0,5427,2,
5350,0,5428,2,
5341,0,5429,2,
5347,0,5430,2,
5348,0,5431,2,
1597,5332,5432,0,
5321,4096,5433,1,
4903,5351,5434,0,
1597,5334,5435,0,
5353,0,5436,2,
5352,0,5437,2,
1978,5334,5438,0,
5354,0,5439,2,
5355,4296,5440,0,
5312,4296,5441,0,
5357,4563,5442,0,
4829,5360,5443,1,
5360,0,5444,2,
5367,0,5445,2,
5365,0,5446,2,
4867,5336,5447,0,
1527,5332,5448,0,
1294,5366,5449,1,
4955,5362,5450,0,
5012,5363,5451,0,
5364,0,5452,2,
1978,5332,5453,0,
5094,5368,5454,0,
5108,5370,5455,0,
5372,0,5456,2,
5371,3805,5457,0,
4062,5373,5458,0,
5374,0,5459,2,
5378,4295,5460,0,
5375,3821,5461,1,
5376,0,5462,2,
5375,0,5463,2,
5377,0,5464,2,
5385,0,5465,2,
4298,5386,5466,0,
5381,0,5467,2,
5382,0,5468,2,
5229,5384,5469,0,
5387,0,5470,2,
5383,4105,5471,0,
5375,3941,5472,1,
5124,5384,5473,0,
3706,5380,5474,1,
4290,5379,5475,0,
5388,0,5476,2,
5393,4291,5477,0,
3853,5390,5478,0,
5379,4291,5479,0,
4298,5383,5480,0,
5392,0,5481,2,
5389,4105,5482,0,
5375,3940,5483,1,
4298,5389,5484,0,
5231,5394,5485,0,
5401,0,5486,2,
5404,0,5487,2,
5396,0,5488,2,
5402,0,5489,2,
5398,0,5490,2,
5397,0,5491,2,
4294,5403,5492,0,
5399,0,5493,2,
4294,5378,5494,0,
5403,4295,5495,0,
4290,5393,5496,0,
5395,4295,5497,0,
5409,4534,5498,0,
5411,0,5499,2,
5390,5407,5500,0,
5410,4534,5501,0,
5408,0,5502,2,
4548,5409,5503,0,
5375,4090,5504,1,
5412,0,5505,2,
4890,5391,5506,0,
5417,0,5507,2,
5447,0,5508,2,
5414,4892,5509,0,
5416,0,5510,2,
5386,4105,5511,0,
5415,0,5512,2,
5413,0,5513,2,
4548,5410,5514,0,
5418,0,5515,2,
5420,0,5516,2,
5419,0,5517,2,
5421,0,5518,2,
4750,5401,5519,0,
4898,5414,5520,0,
5423,0,5521,2,
5411,4315,5522,0,
5424,4901,5523,1,
5424,0,5524,2,
4294,5395,5525,0,
5375,4096,5526,1,
4902,5429,5527,0,
5430,5431,5528,0,
5432,0,5529,2,
4548,5427,5530,0,
5094,5368,5531,1,
5427,4534,5532,0,
5435,0,5533,2,
5434,0,5534,2,
5433,4892,5535,0,
4898,5433,5536,0,
4574,5436,5537,0,
5239,5429,5538,0,
5439,4892,5539,0,
5438,0,5540,2,
4898,5439,5541,0,
5380,4296,5542,0,
4368,5442,5543,1,
4829,5444,5544,0,
5443,0,5545,2,
4849,5449,5546,1,
5369,0,5547,2,
5450,0,5548,2,
5014,5451,5549,1,
5451,0,5550,2,
5449,0,5551,2,
5448,0,5552,2,
5446,5445,5553,0,
5453,0,5554,2,
5454,0,5555,2,
5455,0,5556,2,
3487,5457,5557,1,
4884,5456,5558,0,
3250,5458,5559,1,
4290,5459,5560,0,
5459,4291,5561,0,
5462,4105,5562,0,
5460,0,5563,2,
4290,5461,5564,0,
4298,5462,5565,0,
3706,5463,5566,1,
5464,4291,5567,0,
3853,5474,5568,0,
4290,5464,5569,0,
5466,0,5570,2,
5467,3852,5571,0,
5465,3852,5572,0,
5471,0,5573,2,
5475,0,5574,2,
5470,5230,5575,0,
3853,5467,5576,0,
5474,3852,5577,0,
5472,4105,5578,0,
4298,5472,5579,0,
5469,5391,5580,0,
5473,0,5581,2,
5485,0,5582,2,
5477,0,5583,2,
5478,0,5584,2,
5476,5236,5585,0,
5479,0,5586,2,
5482,0,5587,2,
5461,4291,5588,0,
5484,0,5589,2,
5483,4295,5590,0,
5480,0,5591,2,
5481,4295,5592,0,
4294,5481,5593,0,
4294,5483,5594,0,
3853,5465,5595,0,
5495,0,5596,2,
5037,5490,5597,1,
5487,4311,5598,0,
5494,0,5599,2,
5491,4312,5600,0,
5497,0,5601,2,
5489,4308,5602,0,
5486,4897,5603,0,
5496,0,5604,2,
4548,5493,5605,0,
5493,4534,5606,0,
5492,0,5607,2,
5501,0,5608,2,
5498,0,5609,2,
5503,0,5610,2,
5499,4102,5611,0,
5502,5244,5612,0,
5500,0,5613,2,
5504,4534,5614,0,
5422,5515,5615,0,
5509,0,5616,2,
4747,5507,5617,0,
5511,0,5618,2,
5117,5506,5619,1,
4759,5499,5620,0,
5505,5247,5621,0,
5513,4892,5622,0,
5514,0,5623,2,
5086,5508,5624,0,
5085,5490,5625,0,
5519,0,5626,2,
5520,0,5627,2,
5516,5248,5628,0,
5522,0,5629,2,
5523,0,5630,2,
5521,4326,5631,0,
5524,4901,5632,0,
4548,5504,5633,0,
4768,5529,5634,0,
5138,5527,5635,1,
5528,0,5636,2,
5530,0,5637,2,
4898,5513,5638,0,
5525,0,5639,2,
5532,0,5640,2,
5526,4892,5641,0,
5536,0,5642,2,
5534,4575,5643,0,
5533,4143,5644,0,
5535,0,5645,2,
5538,0,5646,2,
4898,5526,5647,0,
5537,0,5648,2,
5539,0,5649,2,
5540,4349,5650,0,
5534,4575,5651,1,
5541,0,5652,2,
1302,5543,5653,0,
5463,4296,5654,0,
1513,5543,5655,0,
4583,5537,5656,1,
1978,5543,5657,0,
5544,0,5658,2,
5143,5508,5659,0,
1527,5543,5660,0,
5553,0,5661,2,
5455,1604,5662,0,
1597,5543,5663,0,
5548,5011,5664,0,
5549,0,5665,2,
5014,5550,5666,0,
5506,5170,5667,0,
5508,4537,5668,0,
5554,4871,5669,0,
4944,5551,5670,0,
4869,5552,5671,0,
5547,4676,5672,0,
5064,5555,5673,0,
1279,5672,5674,1,
5556,1449,5675,1,
2542,5558,5676,1,
5557,0,5677,2,
5559,0,5678,2,
3555,5662,5679,1,
5557,3941,5680,1,
5560,0,5681,2,
5561,0,5682,2,
5567,0,5683,2,
5563,5468,5684,0,
5565,0,5685,2,
5562,0,5686,2,
5566,3852,5687,0,
3853,5566,5688,0,
5564,0,5689,2,
5572,0,5690,2,
5575,0,5691,2,
5580,0,5692,2,
5400,5581,5693,0,
5577,0,5694,2,
5576,0,5695,2,
5571,0,5696,2,
5569,0,5697,2,
5568,0,5698,2,
5578,0,5699,2,
5579,0,5700,2,
5585,0,5701,2,
5593,0,5702,2,
5595,0,5703,2,
3821,5662,5704,1,
5586,5488,5705,0,
5592,0,5706,2,
5594,0,5707,2,
5590,0,5708,2,
5582,5339,5709,0,
5588,0,5710,2,
5605,0,5711,2,
4550,5600,5712,0,
5603,0,5713,2,
5559,3940,5714,1,
5606,0,5715,2,
5597,0,5716,2,
4555,5602,5717,0,
4316,5598,5718,0,
5612,0,5719,2,
5614,0,5720,2,
5613,5512,5721,0,
5609,5510,5722,0,
4108,5611,5723,1,
5557,3940,5724,1,
3941,5662,5725,1,
5619,0,5726,2,
5557,4090,5727,1,
5622,0,5728,2,
5621,0,5729,2,
5616,5517,5730,0,
5618,5518,5731,0,
5625,0,5732,2,
5615,5425,5733,0,
5620,0,5734,2,
4323,5624,5735,1,
4299,5617,5736,1,
5628,0,5737,2,
4336,5631,5738,0,
5430,5630,5739,0,
5352,5630,5740,0,
5632,0,5741,2,
5633,0,5742,2,
5559,4090,5743,1,
3940,5662,5744,1,
5638,0,5745,2,
5636,5437,5746,0,
5641,0,5747,2,
5635,0,5748,2,
1281,5634,5749,1,
5644,4580,5750,0,
5643,0,5751,2,
5557,4096,5752,1,
5647,0,5753,2,
4583,5648,5754,0,
5646,5186,5755,0,
4353,5650,5756,0,
1513,5651,5757,0,
5559,4096,5758,1,
5653,0,5759,2,
5655,0,5760,2,
5656,0,5761,2,
1527,5651,5762,0,
1302,5651,5763,0,
5657,0,5764,2,
1978,5651,5765,0,
5557,4296,5766,0,
4997,5658,5767,0,
5661,5546,5768,1,
5662,4090,5769,1,
5662,4096,5770,1,
5662,0,5771,2,
5666,0,5772,2,
1597,5651,5773,0,
1294,5669,5774,1,
5102,5668,5775,0,
5667,0,5776,2,
5661,5546,5777,0,
1279,5671,5778,1,
5663,0,5779,2,
5660,0,5780,2,
5670,0,5781,2,
5659,0,5782,2,
5673,0,5783,2,
5675,0,5784,2,
5676,0,5785,2,
3706,5677,5786,1,
3949,5677,5787,1,
3706,5678,5788,1,
3949,5678,5789,1,
3853,5679,5790,0,
5680,0,5791,2,
5679,3852,5792,0,
4099,5678,5793,1,
5688,0,5794,2,
5686,5570,5795,0,
5683,5574,5796,0,
5687,0,5797,2,
5684,0,5798,2,
5573,5685,5799,0,
5682,5689,5800,0,
5696,5584,5801,0,
5587,5700,5802,0,
5694,5695,5803,0,
5699,5591,5804,0,
5583,5697,5805,0,
5693,5692,5806,0,
4290,5704,5807,0,
5709,0,5808,2,
5706,5599,5809,0,
5596,5702,5810,0,
5708,5607,5811,0,
5601,5707,5812,0,
5676,3940,5813,1,
5705,0,5814,2,
5710,5604,5815,0,
5715,5610,5816,0,
5608,5711,5817,0,
1259,5712,5818,1,
1259,5718,5819,1,
4294,5714,5820,0,
1212,5717,5821,1,
5675,3940,5822,1,
5724,0,5823,2,
5722,0,5824,2,
5721,0,5825,2,
1513,5723,5826,0,
5720,5623,5827,0,
1513,5736,5828,0,
5731,0,5829,2,
5714,4295,5830,0,
5727,0,5831,2,
5704,4291,5832,0,
5733,0,5833,2,
1597,5735,5834,0,
4980,5734,5835,0,
5728,5627,5836,0,
1302,5736,5837,0,
5725,4105,5838,0,
1302,5723,5839,0,
1597,5736,5840,0,
5740,0,5841,2,
5739,5431,5842,0,
4298,5725,5843,0,
1212,5738,5844,1,
5154,5673,5845,1,
1978,5736,5846,0,
5640,5742,5847,0,
5743,4534,5848,0,
5778,0,5849,2,
1513,5735,5850,0,
5645,5745,5851,0,
5744,4295,5852,0,
5523,5746,5853,1,
5749,5748,5854,1,
5747,5642,5855,0,
5676,4090,5856,1,
1281,5750,5857,1,
5749,0,5858,2,
5675,4090,5859,1,
4904,5751,5860,0,
5344,5755,5861,1,
5754,0,5862,2,
5730,0,5863,2,
1302,5735,5864,0,
5752,0,5865,2,
4548,5743,5866,0,
5649,5753,5867,0,
1978,5723,5868,0,
1294,5756,5869,1,
4294,5744,5870,0,
5757,0,5871,2,
5758,4892,5872,0,
1978,5735,5873,0,
5759,4615,5874,0,
4385,5760,5875,0,
5762,0,5876,2,
5763,0,5877,2,
5764,4633,5878,0,
5765,0,5879,2,
5676,4096,5880,1,
4898,5758,5881,0,
4998,5767,5882,1,
5767,0,5883,2,
5782,4443,5884,0,
5774,5103,5885,1,
5779,4718,5886,0,
5774,0,5887,2,
5780,4717,5888,0,
5675,4096,5889,1,
5769,4534,5890,0,
4548,5769,5891,0,
5678,4296,5892,0,
5770,4892,5893,0,
1527,5735,5894,0,
5675,4296,5895,0,
4898,5770,5896,0,
4898,5771,5897,0,
1527,5723,5898,0,
1527,5736,5899,0,
5777,0,5900,2,
5674,0,5901,2,
5776,5213,5902,0,
5773,0,5903,2,
5775,0,5904,2,
5214,5783,5905,0,
3706,5784,5906,1,
3949,5784,5907,1,
5787,0,5908,2,
3706,5785,5909,1,
5786,0,5910,2,
3949,5785,5911,1,
5788,3852,5912,0,
4290,5789,5913,0,
5790,0,5914,2,
5789,4291,5915,0,
3853,5788,5916,0,
4298,5791,5917,0,
5792,0,5918,2,
5791,4105,5919,0,
5793,4105,5920,0,
5691,5795,5921,1,
5796,0,5922,2,
5798,5799,5923,1,
5797,5698,5924,0,
5690,5794,5925,0,
4099,5784,5926,1,
5806,0,5927,2,
5800,0,5928,2,
5799,0,5929,2,
5795,0,5930,2,
5701,5801,5931,1,
5803,0,5932,2,
5240,5803,5933,1,
5805,0,5934,2,
5811,0,5935,2,
5807,0,5936,2,
4099,5785,5937,1,
5808,5713,5938,0,
5804,0,5939,2,
5813,4295,5940,0,
5809,0,5941,2,
5815,0,5942,2,
5821,0,5943,2,
5818,0,5944,2,
5801,0,5945,2,
5810,0,5946,2,
5819,0,5947,2,
5820,0,5948,2,
5802,0,5949,2,
4298,5793,5950,0,
4294,5823,5951,0,
5822,0,5952,2,
5827,0,5953,2,
5826,0,5954,2,
5818,5194,5955,1,
5816,0,5956,2,
5834,0,5957,2,
5823,4295,5958,0,
5837,0,5959,2,
4294,5813,5960,0,
5828,0,5961,2,
5832,0,5962,2,
5838,0,5963,2,
5831,4534,5964,0,
5855,5836,5965,1,
5428,5833,5966,0,
5835,5629,5967,0,
5830,0,5968,2,
5840,0,5969,2,
5821,5619,5970,0,
5839,0,5971,2,
5844,0,5972,2,
5842,0,5973,2,
5812,0,5974,2,
5843,0,5975,2,
5741,5841,5976,0,
5320,5902,5977,1,
4548,5831,5978,0,
5848,0,5979,2,
5846,0,5980,2,
5845,5849,5981,1,
5836,0,5982,2,
5852,0,5983,2,
5855,0,5984,2,
5854,0,5985,2,
5146,5887,5986,0,
5850,0,5987,2,
5847,0,5988,2,
5858,5748,5989,0,
5859,0,5990,2,
5817,0,5991,2,
5806,5597,5992,1,
5860,0,5993,2,
5857,0,5994,2,
5856,4534,5995,0,
5866,0,5996,2,
4590,5862,5997,0,
5865,4892,5998,0,
4548,5856,5999,0,
5864,0,6000,2,
5868,0,6001,2,
5851,0,6002,2,
5297,5869,6003,1,
5869,0,6004,2,
5870,0,6005,2,
4783,5871,6006,0,
4898,5865,6007,0,
5872,0,6008,2,
5867,0,6009,2,
4913,5874,6010,0,
5873,0,6011,2,
5875,4915,6012,0,
5876,4390,6013,0,
5877,4391,6014,0,
4919,5878,6015,0,
5879,4415,6016,0,
5880,4892,6017,0,
5881,0,6018,2,
5048,5883,6019,0,
4442,5884,6020,1,
5845,5849,6021,0,
5899,0,6022,2,
5889,0,6023,2,
5890,0,6024,2,
4898,5880,6025,0,
5891,0,6026,2,
5893,0,6027,2,
5785,4296,6028,0,
5894,0,6029,2,
5895,0,6030,2,
5896,0,6031,2,
5897,0,6032,2,
5898,0,6033,2,
5903,5062,6034,0,
5904,5041,6035,0,
5781,5900,6036,0,
4952,5888,6037,0,
4950,5886,6038,0,
1281,6034,6039,1,
5905,0,6040,2,
5426,5947,6041,1,
5906,0,6042,2,
5908,4291,6043,0,
5907,0,6044,2,
3853,5910,6045,0,
5911,4291,6046,0,
3853,5909,6047,0,
5913,0,6048,2,
4290,5911,6049,0,
5912,0,6050,2,
4290,5908,6051,0,
5909,3852,6052,0,
5914,4107,6053,0,
5916,0,6054,2,
5915,0,6055,2,
5919,0,6056,2,
5910,3852,6057,0,
5917,0,6058,2,
5920,0,6059,2,
5243,5925,6060,1,
5922,5924,6061,1,
5921,0,6062,2,
5923,0,6063,2,
5925,0,6064,2,
5926,0,6065,2,
5798,5929,6066,0,
5716,5927,6067,0,
5245,5931,6068,0,
5691,5930,6069,0,
5183,5932,6070,0,
5933,5814,6071,0,
5936,4760,6072,0,
5938,0,6073,2,
4298,5937,6074,0,
5933,5705,6075,1,
5931,0,6076,2,
5940,0,6077,2,
5937,4105,6078,0,
5950,0,6079,2,
5726,5943,6080,0,
5924,0,6081,2,
5944,5252,6082,0,
5701,5945,6083,0,
5952,4295,6084,0,
5954,4138,6085,0,
5953,5836,6086,1,
5426,5947,6087,0,
5951,0,6088,2,
5531,5966,6089,1,
1281,5967,6090,1,
5959,4140,6091,0,
5957,4567,6092,0,
5964,0,6093,2,
5960,0,6094,2,
5958,0,6095,2,
5961,4139,6096,0,
5969,4144,6097,0,
5966,0,6098,2,
5971,4145,6099,0,
5970,0,6100,2,
5836,5953,6101,0,
5977,5972,6102,0,
6020,0,6103,2,
5975,4582,6104,0,
5978,0,6105,2,
4294,5952,6106,0,
5976,5973,6107,0,
6036,0,6108,2,
5981,0,6109,2,
5980,4150,6110,0,
5977,0,6111,2,
5987,4589,6112,0,
5986,0,6113,2,
5984,5982,6114,0,
5992,0,6115,2,
5995,0,6116,2,
5861,5994,6117,1,
5990,4534,6118,0,
5989,0,6119,2,
5993,4591,6120,0,
5999,0,6121,2,
5998,0,6122,2,
4156,5997,6123,1,
6000,4600,6124,0,
5997,0,6125,2,
5993,4591,6126,1,
5861,5994,6127,0,
5358,6004,6128,0,
6001,4159,6129,0,
6006,4981,6130,0,
6007,0,6131,2,
6005,4788,6132,0,
1212,6010,6133,1,
6011,4619,6134,0,
1259,6012,6135,1,
4986,6013,6136,0,
4987,6014,6137,0,
1294,6015,6138,1,
4995,6016,6139,0,
6017,0,6140,2,
6019,0,6141,2,
4318,6035,6142,1,
1279,6037,6143,1,
4548,5990,6144,0,
6023,4892,6145,0,
6025,0,6146,2,
6026,4953,6147,0,
4898,6023,6148,0,
6029,4690,6149,0,
6030,5896,6150,1,
5895,6031,6151,0,
6033,4230,6152,0,
4296,6032,6153,0,
6022,4218,6154,0,
6021,0,6155,2,
1281,6038,6156,1,
6040,6155,6157,0,
6042,3852,6158,0,
6046,0,6159,2,
6045,0,6160,2,
6044,4291,6161,0,
3853,6042,6162,0,
6047,0,6163,2,
6043,0,6164,2,
6052,0,6165,2,
6051,0,6166,2,
6049,0,6167,2,
5235,6053,6168,1,
6059,6058,6169,0,
6056,5589,6170,0,
6057,0,6171,2,
6061,0,6172,2,
6061,5612,6173,1,
6060,5934,6174,0,
5181,6064,6175,0,
6069,0,6176,2,
6065,4105,6177,0,
6068,0,6178,2,
6067,0,6179,2,
6060,5805,6180,1,
6066,0,6181,2,
6070,0,6182,2,
6071,0,6183,2,
6078,0,6184,2,
6074,0,6185,2,
4290,6044,6186,0,
6072,0,6187,2,
6075,0,6188,2,
6076,5292,6189,0,
4298,6065,6190,0,
6077,5948,6191,0,
6073,5626,6192,0,
6080,0,6193,2,
6082,6041,6194,0,
5922,6081,6195,0,
6083,0,6196,2,
5955,6041,6197,0,
4767,6085,6198,0,
6087,0,6199,2,
6084,0,6200,2,
5968,6088,6201,0,
4770,6092,6202,0,
6089,0,6203,2,
6090,0,6204,2,
6053,0,6205,2,
6093,5637,6206,0,
4769,6091,6207,0,
6142,0,6208,2,
6095,5639,6209,0,
4771,6096,6210,0,
4772,6099,6211,0,
5531,6098,6212,0,
4773,6097,6213,0,
5854,6107,6214,1,
6106,0,6215,2,
1302,6103,6216,0,
6101,0,6217,2,
6108,5885,6218,0,
5979,6105,6219,0,
6102,0,6220,2,
6107,0,6221,2,
4776,6110,6222,0,
5844,6111,6223,0,
6114,0,6224,2,
4777,6112,6225,0,
6116,5996,6226,0,
6118,0,6227,2,
1978,6103,6228,0,
6120,0,6229,2,
5989,6117,6230,0,
1513,6103,6231,0,
4374,6125,6232,0,
1513,6126,6233,0,
6127,0,6234,2,
4784,6124,6235,0,
6122,5652,6236,0,
6104,0,6237,2,
4787,6129,6238,0,
6128,0,6239,2,
6008,6131,6240,0,
1259,6130,6241,1,
6133,0,6242,2,
4796,6134,6243,0,
6123,0,6244,2,
6135,0,6245,2,
1279,6136,6246,1,
1302,6126,6247,0,
1597,6126,6248,0,
1212,6137,6249,1,
6138,0,6250,2,
1294,6139,6251,1,
1978,6126,6252,0,
6140,6018,6253,0,
5050,6141,6254,0,
1527,6126,6255,0,
1597,6103,6256,0,
6144,0,6257,2,
6145,0,6258,2,
6132,0,6259,2,
6148,0,6260,2,
5885,6108,6261,1,
6147,0,6262,2,
4856,6149,6263,0,
1527,6103,6264,0,
6151,0,6265,2,
6143,0,6266,2,
6156,0,6267,2,
4864,6152,6268,0,
6031,6153,6269,1,
6082,0,6270,2,
4868,6154,6271,0,
6039,0,6272,2,
5364,6157,6273,1,
6158,0,6274,2,
6164,5681,6275,0,
6050,6160,6276,0,
6161,0,6277,2,
6159,6048,6278,0,
6162,0,6279,2,
6055,6166,6280,0,
6165,6054,6281,0,
6171,5703,6282,0,
6170,0,6283,2,
6175,0,6284,2,
6174,0,6285,2,
6172,5719,6286,0,
6173,5290,6287,0,
6178,5825,6288,0,
6177,0,6289,2,
6180,0,6290,2,
5732,6179,6291,0,
6180,5731,6292,1,
6173,5246,6293,1,
6183,6182,6294,0,
6191,0,6295,2,
6186,0,6296,2,
6188,5945,6297,0,
6184,6079,6298,0,
6192,0,6299,2,
6190,0,6300,2,
6189,0,6301,2,
6187,5836,6302,1,
6075,6196,6303,0,
6194,0,6304,2,
6169,0,6305,2,
1259,6198,6306,1,
6200,6094,6307,0,
1212,6207,6308,1,
1259,6210,6309,1,
6204,6203,6310,0,
6209,0,6311,2,
1281,6202,6312,1,
5175,6205,6313,0,
1513,6208,6314,0,
6206,0,6315,2,
6201,0,6316,2,
1212,6211,6317,1,
6212,0,6318,2,
5836,6187,6319,0,
1281,6213,6320,1,
1302,6208,6321,0,
5983,6215,6322,0,
6216,0,6323,2,
6218,0,6324,2,
5985,6221,6325,0,
1294,6222,6326,1,
6223,0,6327,2,
6236,6104,6328,1,
6219,0,6329,2,
1259,6225,6330,1,
6231,0,6331,2,
6228,0,6332,2,
6227,6121,6333,0,
4907,6229,6334,0,
6230,0,6335,2,
1212,6235,6336,1,
6233,0,6337,2,
6232,0,6338,2,
6236,0,6339,2,
6090,6203,6340,1,
1294,6238,6341,1,
6241,0,6342,2,
6226,0,6343,2,
1294,6243,6344,1,
1978,6208,6345,0,
6246,0,6346,2,
6248,0,6347,2,
6247,0,6348,2,
6249,0,6349,2,
6252,0,6350,2,
6251,0,6351,2,
6253,0,6352,2,
6240,0,6353,2,
5051,6254,6354,1,
6254,0,6355,2,
1597,6208,6356,0,
1279,6268,6357,1,
6024,6257,6358,0,
6258,6146,6359,0,
6027,6260,6360,0,
6264,0,6361,2,
1279,6263,6362,1,
1527,6208,6363,0,
6157,0,6364,2,
1279,6271,6365,1,
6256,0,6366,2,
6255,0,6367,2,
5901,6273,6368,0,
6274,6163,6369,0,
6278,0,6370,2,
5918,6279,6371,0,
6275,0,6372,2,
5234,6276,6373,1,
6277,6167,6374,0,
6280,0,6375,2,
6276,0,6376,2,
5815,6282,6377,1,
6281,0,6378,2,
6282,0,6379,2,
6287,0,6380,2,
6286,0,6381,2,
6284,6285,6382,0,
6288,0,6383,2,
6195,6292,6384,0,
6290,5829,6385,0,
6293,0,6386,2,
6294,0,6387,2,
6289,6185,6388,0,
6291,0,6389,2,
6292,6195,6390,1,
5963,6300,6391,0,
6297,5701,6392,0,
5962,6296,6393,0,
6086,6298,6394,1,
6295,5965,6395,1,
6299,6193,6396,0,
6303,0,6397,2,
6199,6304,6398,0,
6298,0,6399,2,
6294,6293,6400,0,
6306,0,6401,2,
6307,0,6402,2,
5674,6273,6403,1,
6310,0,6404,2,
6313,0,6405,2,
6308,0,6406,2,
6314,0,6407,2,
6312,0,6408,2,
6309,0,6409,2,
6319,0,6410,2,
6321,0,6411,2,
6317,0,6412,2,
6295,5965,6413,0,
6320,6109,6414,1,
6322,0,6415,2,
6323,4596,6416,0,
6325,0,6417,2,
6320,0,6418,2,
6113,6324,6419,0,
6326,0,6420,2,
6325,6117,6421,0,
6330,0,6422,2,
6334,0,6423,2,
6332,4612,6424,0,
6234,6335,6425,0,
6333,0,6426,2,
4909,6331,6427,0,
4910,6337,6428,0,
6336,0,6429,2,
6339,6237,6430,0,
6341,0,6431,2,
5656,6341,6432,1,
6340,0,6433,2,
6344,0,6434,2,
6326,6244,6435,1,
6345,0,6436,2,
6348,4812,6437,0,
6347,4810,6438,0,
6350,4826,6439,0,
6358,6132,6440,1,
5092,6355,6441,0,
6357,0,6442,2,
6366,4721,6443,0,
6367,4874,6444,0,
6356,0,6445,2,
6358,0,6446,2,
6359,0,6447,2,
6360,0,6448,2,
6362,0,6449,2,
6361,4696,6450,0,
6363,0,6451,2,
5452,6364,6452,0,
6365,0,6453,2,
6368,0,6454,2,
5237,6369,6455,1,
6168,6374,6456,1,
6372,6281,6457,1,
6373,5800,6458,1,
6370,6371,6459,1,
6369,0,6460,2,
6373,5928,6461,0,
5178,6376,6462,0,
6062,6377,6463,0,
5942,6379,6464,0,
6372,6378,6465,0,
6371,0,6466,2,
5921,6377,6467,1,
6381,6380,6468,0,
6382,0,6469,2,
6387,6386,6470,0,
6301,6383,6471,0,
6385,0,6472,2,
6302,6388,6473,1,
6197,6389,6474,0,
6384,0,6475,2,
6374,0,6476,2,
6394,6393,6477,1,
6392,0,6478,2,
6396,0,6479,2,
6395,6391,6480,1,
6390,0,6481,2,
6086,6399,6482,0,
6394,0,6483,2,
6393,0,6484,2,
6388,0,6485,2,
6389,5955,6486,1,
6402,6104,6487,1,
5853,6401,6488,1,
6403,0,6489,2,
6391,0,6490,2,
4905,6407,6491,0,
6214,6409,6492,1,
5853,6401,6493,0,
6318,6404,6494,0,
6413,0,6495,2,
6214,6409,6496,0,
5992,6412,6497,0,
6411,4595,6498,0,
6415,6328,6499,1,
4778,6416,6500,0,
6419,0,6501,2,
6417,6119,6502,0,
6418,5981,6503,0,
6420,6123,6504,0,
6104,6402,6505,0,
6421,0,6506,2,
1259,6427,6507,1,
6426,6132,6508,1,
4790,6424,6509,0,
6415,6328,6510,0,
6423,4014,6511,0,
6428,4912,6512,0,
6430,0,6513,2,
5761,6431,6514,0,
6423,4014,6515,1,
6436,4627,6516,0,
4990,6437,6517,0,
4989,6438,6518,0,
4996,6439,6519,0,
6352,6440,6520,1,
6132,6426,6521,0,
6441,0,6522,2,
6452,0,6523,2,
6352,6440,6524,0,
6446,6259,6525,0,
6447,6147,6526,1,
6147,6447,6527,0,
6448,6147,6528,1,
6448,6262,6529,0,
4861,6450,6530,0,
6451,4706,6531,0,
6389,5955,6532,0,
6445,4678,6533,0,
4848,6443,6534,0,
5009,6444,6535,0,
1279,6530,6536,1,
6454,6523,6537,0,
6455,6280,6538,1,
6457,5804,6539,1,
6459,6170,6540,1,
6456,6169,6541,1,
6458,0,6542,2,
5179,6460,6543,0,
6459,0,6544,2,
6457,0,6545,2,
6455,6375,6546,0,
6463,0,6547,2,
6462,0,6548,2,
6461,0,6549,2,
6370,6466,6550,0,
6467,0,6551,2,
6467,5253,6552,1,
6468,0,6553,2,
6473,6201,6554,1,
6474,0,6555,2,
6456,0,6556,2,
6475,6472,6557,0,
6471,0,6558,2,
6470,0,6559,2,
6479,6100,6560,0,
6468,6481,6561,0,
6168,6476,6562,0,
6477,6209,6563,1,
6480,0,6564,2,
6473,0,6565,2,
6482,0,6566,2,
6302,6485,6567,0,
6477,6311,6568,0,
6483,6484,6569,0,
6487,6219,6570,1,
6406,6486,6571,0,
6489,6408,6572,1,
6414,6494,6573,1,
1259,6491,6574,1,
6493,6492,6575,0,
6494,0,6576,2,
6488,6492,6577,0,
6493,0,6578,2,
6395,6490,6579,0,
6489,6408,6580,0,
4780,6498,6581,0,
6224,6495,6582,0,
6486,0,6583,2,
6497,0,6584,2,
6496,0,6585,2,
6501,6003,6586,0,
1212,6500,6587,1,
6499,6226,6588,1,
6117,6502,6589,1,
6487,6329,6590,0,
6504,0,6591,2,
6505,0,6592,2,
6425,6506,6593,0,
6503,0,6594,2,
6510,0,6595,2,
6507,0,6596,2,
1294,6509,6597,1,
6511,0,6598,2,
6508,6240,6599,1,
6499,6343,6600,0,
1259,6512,6601,1,
6514,0,6602,2,
1513,6515,6603,0,
1302,6515,6604,0,
4805,6516,6605,0,
1597,6515,6606,0,
1281,6518,6607,1,
1212,6517,6608,1,
1527,6515,6609,0,
6508,6353,6610,0,
1294,6519,6611,1,
6521,0,6612,2,
1978,6515,6613,0,
6520,5766,6614,1,
4873,6533,6615,0,
5766,6520,6616,0,
6524,0,6617,2,
6525,0,6618,2,
6526,5892,6619,1,
5892,6526,6620,0,
6528,6028,6621,1,
6527,0,6622,2,
6528,0,6623,2,
6501,6003,6624,1,
6529,0,6625,2,
4865,6531,6626,0,
6532,0,6627,2,
1281,6534,6628,1,
1279,6535,6629,1,
6537,0,6630,2,
6627,6270,6631,0,
6538,5802,6632,1,
6540,5811,6633,1,
6063,6542,6634,0,
6541,5812,6635,1,
6539,5809,6636,1,
5923,6542,6637,1,
6539,5941,6638,0,
6545,5939,6639,0,
6544,6283,6640,0,
6538,0,6641,2,
6546,0,6642,2,
6540,5935,6643,0,
6543,0,6644,2,
6548,6549,6645,0,
6176,6547,6646,0,
6552,6469,6647,0,
6551,5295,6648,0,
6552,6382,6649,1,
6390,6553,6650,0,
6556,6305,6651,0,
6541,5974,6652,0,
6554,5847,6653,1,
6398,6555,6654,0,
6478,6559,6655,0,
6397,6558,6656,0,
6563,5440,6657,1,
6315,6564,6658,1,
6561,0,6659,2,
6562,0,6660,2,
6560,0,6661,2,
6557,0,6662,2,
6569,0,6663,2,
6568,0,6664,2,
6217,6566,6665,0,
6567,0,6666,2,
6563,0,6667,2,
6554,5988,6668,0,
6565,6316,6669,0,
6570,5867,6670,1,
6571,0,6671,2,
6572,6414,6672,0,
6315,6564,6673,0,
5768,6537,6674,1,
6573,0,6675,2,
6579,0,6676,2,
6574,0,6677,2,
6575,0,6678,2,
6580,0,6679,2,
6503,6572,6680,0,
6308,6583,6681,0,
1212,6581,6682,1,
6414,6576,6683,0,
6628,0,6684,2,
6589,6422,6685,1,
6587,0,6686,2,
6590,0,6687,2,
6586,0,6688,2,
6570,0,6689,2,
6588,5654,6690,1,
6589,0,6691,2,
6338,6591,6692,0,
6588,0,6693,2,
6582,0,6694,2,
6573,6574,6695,0,
6593,0,6696,2,
6340,6593,6697,1,
4386,6598,6698,0,
6599,5359,6699,1,
6597,0,6700,2,
6513,6595,6701,0,
6600,0,6702,2,
6597,4985,6703,0,
6601,0,6704,2,
6603,0,6705,2,
6604,0,6706,2,
1294,6605,6707,1,
6606,0,6708,2,
6608,0,6709,2,
6609,0,6710,2,
6607,0,6711,2,
6599,0,6712,2,
6610,0,6713,2,
6611,0,6714,2,
6613,0,6715,2,
6614,4932,6716,1,
1279,6626,6717,1,
1281,6615,6718,1,
4932,6614,6719,0,
6618,6617,6720,0,
6616,0,6721,2,
6620,0,6722,2,
6621,5010,6723,1,
6623,5785,6724,0,
6621,0,6725,2,
6536,0,6726,2,
6629,0,6727,2,
5768,6630,6728,0,
6632,5810,6729,1,
6636,5621,6730,1,
6636,0,6731,2,
6635,5817,6732,1,
6634,0,6733,2,
6633,5816,6734,1,
6637,6464,6735,1,
6644,6642,6736,0,
6638,0,6737,2,
6641,5949,6738,0,
6632,5946,6739,0,
6643,0,6740,2,
6633,0,6741,2,
6639,0,6742,2,
6640,0,6743,2,
6637,0,6744,2,
6645,0,6745,2,
6646,0,6746,2,
6648,0,6747,2,
6647,0,6748,2,
6557,6649,6749,0,
6650,0,6750,2,
6654,0,6751,2,
6653,5851,6752,1,
6649,0,6753,2,
6652,0,6754,2,
6651,0,6755,2,
6656,0,6756,2,
6658,5441,6757,1,
6661,6220,6758,0,
6657,0,6759,2,
6657,3555,6760,1,
6405,6660,6761,0,
6635,0,6762,2,
5440,6667,6763,0,
6410,6666,6764,0,
6668,0,6765,2,
6669,0,6766,2,
6663,6664,6767,0,
6670,5542,6768,1,
6653,0,6769,2,
6673,0,6770,2,
6671,6115,6771,0,
6672,6576,6772,0,
6671,6584,6773,0,
6678,6585,6774,0,
6674,0,6775,2,
6654,6488,6776,1,
6675,6677,6777,0,
5441,6658,6778,0,
6665,0,6779,2,
6681,0,6780,2,
6680,0,6781,2,
6631,6041,6782,1,
6682,0,6783,2,
6239,6688,6784,0,
6683,0,6785,2,
6592,6687,6786,0,
6690,4793,6787,1,
5542,6670,6788,0,
6689,6009,6789,0,
6685,0,6790,2,
6692,0,6791,2,
6695,0,6792,2,
6693,5463,6793,0,
6691,6422,6794,0,
6697,6596,6795,0,
6433,6696,6796,0,
6697,6596,6797,1,
6690,0,6798,2,
6701,0,6799,2,
6699,0,6800,2,
6698,0,6801,2,
6700,5043,6802,0,
4982,6692,6803,1,
6703,0,6804,2,
4396,6705,6805,0,
6707,0,6806,2,
4405,6706,6807,0,
6708,4925,6808,0,
6710,4928,6809,0,
5359,6712,6810,0,
6612,6713,6811,0,
6715,4935,6812,0,
6717,0,6813,2,
6719,0,6814,2,
6619,6720,6815,1,
6720,0,6816,2,
6622,6722,6817,0,
6723,0,6818,2,
6724,4296,6819,0,
5010,6725,6820,0,
6718,0,6821,2,
6728,0,6822,2,
6729,5722,6823,1,
6729,0,6824,2,
6732,5730,6825,1,
6730,5291,6826,0,
6181,6733,6827,0,
6730,5250,6828,1,
6731,5729,6829,0,
6734,5628,6830,1,
6738,0,6831,2,
6741,5956,6832,0,
6734,5737,6833,0,
6736,0,6834,2,
6735,0,6835,2,
6739,0,6836,2,
6742,6737,6837,0,
6743,6740,6838,0,
6464,6744,6839,0,
6646,6735,6840,1,
6747,6748,6841,0,
6655,6750,6842,0,
6400,6750,6843,0,
6749,0,6844,2,
6662,6753,6845,0,
6755,6754,6846,0,
6752,5356,6847,1,
6488,6751,6848,0,
6758,0,6849,2,
6732,5863,6850,0,
6762,5991,6851,0,
3555,6759,6852,0,
6757,4906,6853,1,
6760,6761,6854,1,
6761,0,6855,2,
6760,0,6856,2,
6763,0,6857,2,
6766,6765,6858,0,
6767,0,6859,2,
6577,6751,6860,0,
6772,0,6861,2,
4906,6757,6862,0,
6769,6002,6863,0,
6764,0,6864,2,
6768,6582,6865,1,
6771,6317,6866,0,
5356,6752,6867,0,
6676,6770,6868,0,
6777,0,6869,2,
6778,0,6870,2,
6776,0,6871,2,
6357,6775,6872,1,
6782,0,6873,2,
6336,6782,6874,0,
6784,0,6875,2,
6785,6594,6876,0,
6786,0,6877,2,
6768,6694,6878,0,
6788,0,6879,2,
6787,0,6880,2,
6789,0,6881,2,
6794,0,6882,2,
6793,4296,6883,0,
5042,6791,6884,0,
6795,0,6885,2,
4793,6798,6886,0,
6796,0,6887,2,
6799,6800,6888,1,
6801,4389,6889,0,
6802,0,6890,2,
6803,6434,6891,1,
5254,6804,6892,0,
6803,6434,6893,0,
6801,4389,6894,1,
6805,4988,6895,0,
6807,4994,6896,0,
4642,6808,6897,0,
4650,6809,6898,0,
6799,6800,6899,0,
6810,0,6900,2,
6716,6811,6901,1,
4662,6812,6902,0,
6811,0,6903,2,
6721,6814,6904,0,
6815,0,6905,2,
6619,6816,6906,0,
6817,0,6907,2,
6819,0,6908,2,
6820,0,6909,2,
6442,6775,6910,0,
6465,6823,6911,0,
6824,5824,6912,0,
6830,0,6913,2,
6828,0,6914,2,
6830,4096,6915,1,
6829,0,6916,2,
6828,6645,6917,1,
6827,0,6918,2,
6826,0,6919,2,
6825,6550,6920,1,
6823,6465,6921,1,
6833,0,6922,2,
6831,6836,6923,0,
6838,0,6924,2,
6835,6746,6925,0,
6832,0,6926,2,
6837,0,6927,2,
6839,0,6928,2,
6840,0,6929,2,
6841,0,6930,2,
6843,0,6931,2,
6844,6659,6932,0,
6842,6756,6933,0,
6845,0,6934,2,
6825,0,6935,2,
6848,0,6936,2,
6846,0,6937,2,
6847,6665,6938,1,
6327,6849,6939,0,
6853,6764,6940,1,
6856,6855,6941,0,
6850,0,6942,2,
6851,0,6943,2,
6852,0,6944,2,
6858,0,6945,2,
6854,6846,6946,1,
6860,0,6947,2,
6865,0,6948,2,
6847,6779,6949,0,
6862,0,6950,2,
6868,0,6951,2,
6853,6864,6952,0,
6863,0,6953,2,
6867,0,6954,2,
6861,6679,6955,0,
6866,0,6956,2,
6871,6686,6957,0,
6872,6684,6958,1,
6871,0,6959,2,
6873,6429,6960,0,
6881,6879,6961,0,
6878,0,6962,2,
6874,0,6963,2,
6877,6880,6964,1,
6875,6432,6965,0,
6572,6876,6966,1,
6883,0,6967,2,
6877,6880,6968,0,
6884,0,6969,2,
6886,0,6970,2,
6887,6885,6971,0,
6890,5089,6972,0,
6889,0,6973,2,
6893,0,6974,2,
1513,6894,6975,0,
1259,6895,6976,1,
1212,6896,6977,1,
1281,6897,6978,1,
1302,6894,6979,0,
1279,6898,6980,1,
1527,6894,6981,0,
6899,0,6982,2,
6901,0,6983,2,
1294,6902,6984,1,
1978,6894,6985,0,
6716,6903,6986,0,
6904,0,6987,2,
6906,0,6988,2,
6907,6818,6989,1,
6907,6818,6990,0,
6625,6908,6991,0,
6875,6432,6992,1,
6910,0,6993,2,
6872,0,6994,2,
1597,6894,6995,0,
6822,6993,6996,0,
6994,6684,6997,0,
6911,0,6998,2,
6912,0,6999,2,
6917,6918,7000,0,
6913,4296,7001,0,
6915,6834,7002,0,
6914,6745,7003,0,
6915,6736,7004,1,
6920,0,7005,2,
6916,6919,7006,0,
6921,6837,7007,1,
6925,0,7008,2,
6923,0,7009,2,
6926,6922,7010,0,
6921,6927,7011,0,
6917,6827,7012,1,
6841,6929,7013,0,
6840,6930,7014,0,
6933,0,7015,2,
6932,6931,7016,0,
6938,0,7017,2,
6936,6578,7018,0,
6550,6935,7019,0,
6854,6937,7020,0,
6941,0,7021,2,
6943,6942,7022,0,
6939,0,7023,2,
6940,0,7024,2,
6857,6944,7025,0,
6774,6947,7026,0,
6870,6950,7027,0,
6946,0,7028,2,
6951,6948,7029,1,
6780,6956,7030,0,
6955,6781,7031,0,
6949,0,7032,2,
6953,6954,7033,0,
6971,6869,7034,0,
6952,0,7035,2,
6957,0,7036,2,
6951,6948,7037,0,
6960,0,7038,2,
6587,6959,7039,0,
6964,6961,7040,1,
6965,0,7041,2,
5089,6969,7042,0,
6968,0,7043,2,
6966,0,7044,2,
6961,0,7045,2,
6702,6967,7046,0,
6574,6971,7047,1,
4803,6973,7048,0,
6972,6969,7049,0,
6975,0,7050,2,
6976,0,7051,2,
6977,0,7052,2,
6979,0,7053,2,
6978,0,7054,2,
6980,0,7055,2,
6981,0,7056,2,
6900,6982,7057,0,
6984,0,7058,2,
6985,0,7059,2,
6958,0,7060,2,
6986,0,7061,2,
6987,6905,7062,1,
6987,6905,7063,0,
6990,0,7064,2,
6150,6991,7065,1,
6991,0,7066,2,
6992,0,7067,2,
6992,6726,7068,0,
6995,0,7069,2,
6261,6996,7070,1,
6999,6998,7071,0,
6924,7005,7072,1,
7004,0,7073,2,
7007,0,7074,2,
7006,0,7075,2,
7000,0,7076,2,
7004,6923,7077,1,
7001,0,7078,2,
7002,0,7079,2,
7003,0,7080,2,
6928,7008,7081,0,
7012,0,7082,2,
7011,0,7083,2,
7013,0,7084,2,
7007,7006,7085,1,
7014,0,7086,2,
6924,7005,7087,0,
7016,7015,7088,0,
7010,0,7089,2,
7020,0,7090,2,
6859,7017,7091,1,
7019,0,7092,2,
6492,7018,7093,1,
6945,7024,7094,0,
6859,7017,7095,0,
6773,7023,7096,0,
6946,7022,7097,1,
7026,0,7098,2,
7025,0,7099,2,
7022,0,7100,2,
6945,7024,7101,1,
6958,7031,7102,1,
7029,7027,7103,1,
7034,0,7104,2,
7027,0,7105,2,
7037,0,7106,2,
7033,0,7107,2,
7039,0,7108,2,
7026,6685,7109,1,
6602,7041,7110,0,
7040,0,7111,2,
6964,7045,7112,0,
6888,7046,7113,1,
6970,7043,7114,0,
7042,0,7115,2,
7047,6675,7116,1,
7048,0,7117,2,
7049,0,7118,2,
4413,7050,7119,0,
7053,4421,7120,0,
7056,4428,7121,0,
7046,0,7122,2,
7057,0,7123,2,
7059,4436,7124,0,
7069,4498,7125,0,
7031,0,7126,2,
7063,0,7127,2,
6996,0,7128,2,
6909,7064,7129,0,
7065,0,7130,2,
7060,6572,7131,0,
7060,6576,7132,0,
6150,7066,7133,0,
6580,7060,7134,0,
7068,0,7135,2,
7067,6536,7136,0,
6997,0,7137,2,
7070,0,7138,2,
4945,7125,7139,0,
7071,0,7140,2,
7075,7074,7141,0,
7073,7009,7142,0,
7078,7079,7143,0,
7072,7010,7144,1,
7080,7076,7145,0,
7081,7012,7146,0,
7075,7074,7147,1,
7081,0,7148,2,
7077,7071,7149,1,
7086,6934,7150,0,
7085,0,7151,2,
7072,7089,7152,0,
7087,0,7153,2,
7088,0,7154,2,
7091,7025,7155,1,
7021,7090,7156,0,
7093,0,7157,2,
7095,0,7158,2,
7096,0,7159,2,
7094,0,7160,2,
7028,7100,7161,0,
7101,7033,7162,1,
7091,7099,7163,0,
7093,6682,7164,0,
6790,7098,7165,0,
7102,0,7166,2,
6342,7102,7167,0,
7103,0,7168,2,
7104,6792,7169,0,
7101,7107,7170,0,
6962,7106,7171,0,
7029,7105,7172,0,
7109,6242,7173,0,
7110,0,7174,2,
7112,0,7175,2,
7113,0,7176,2,
7109,0,7177,2,
7115,5043,7178,1,
7114,0,7179,2,
5043,7115,7180,0,
6892,7118,7181,0,
7117,4399,7182,1,
7117,4399,7183,0,
7119,4926,7184,0,
4931,7120,7185,0,
4933,7121,7186,0,
6888,7122,7187,0,
7123,6983,7188,1,
4940,7124,7189,0,
7065,7129,7190,1,
6435,7110,7191,1,
7123,6983,7192,0,
6988,7127,7193,0,
7128,6261,7194,0,
7129,0,7195,2,
7133,0,7196,2,
7131,6503,7197,0,
7132,6672,7198,0,
7134,0,7199,2,
7136,0,7200,2,
6365,7138,7201,1,
1281,7139,7202,1,
7077,7140,7203,0,
7141,0,7204,2,
7143,0,7205,2,
7144,0,7206,2,
7142,0,7207,2,
7145,0,7208,2,
7148,7082,7209,0,
7146,0,7210,2,
7149,0,7211,2,
7145,7151,7212,0,
7152,0,7213,2,
7092,7153,7214,0,
6783,7157,7215,0,
7156,0,7216,2,
7155,0,7217,2,
7030,7159,7218,0,
7035,7160,7219,0,
7032,7158,7220,0,
7161,0,7221,2,
7162,0,7222,2,
7164,0,7223,2,
7165,0,7224,2,
7163,0,7225,2,
6966,7169,7226,1,
6241,7166,7227,0,
7167,0,7228,2,
7170,0,7229,2,
7171,0,7230,2,
7172,0,7231,2,
7173,0,7232,2,
7169,7044,7233,0,
6435,7174,7234,0,
7178,6700,7235,0,
7178,6700,7236,1,
6133,7177,7237,0,
7179,7176,7238,1,
7180,0,7239,2,
7191,0,7240,2,
7181,0,7241,2,
1513,7182,7242,0,
7183,0,7243,2,
1259,7184,7244,1,
1302,7182,7245,0,
1212,7185,7246,1,
1527,7182,7247,0,
1279,7186,7248,1,
7179,7176,7249,0,
7187,0,7250,2,
1978,7182,7251,0,
1294,7189,7252,1,
7192,0,7253,2,
6989,7193,7254,1,
6453,7138,7255,0,
7193,0,7256,2,
7194,0,7257,2,
1597,7182,7258,0,
7130,7195,7259,0,
7197,0,7260,2,
7198,0,7261,2,
7196,6265,7262,0,
7199,7137,7263,0,
7200,6891,7264,0,
7201,6821,7265,1,
7203,0,7266,2,
7205,7206,7267,1,
7083,7204,7268,0,
7147,7208,7269,0,
7209,0,7270,2,
7210,7084,7271,0,
7205,7206,7272,0,
7212,0,7273,2,
7214,0,7274,2,
7097,7214,7275,1,
7215,0,7276,2,
7216,7217,7277,0,
7218,0,7278,2,
7220,0,7279,2,
7219,0,7280,2,
6882,7224,7281,0,
7223,6963,7282,0,
7216,7217,7283,1,
7227,0,7284,2,
7226,0,7285,2,
7230,7111,7286,0,
7230,7111,7287,1,
7233,0,7288,2,
7234,6891,7289,0,
7236,6346,7290,0,
7235,0,7291,2,
7237,0,7292,2,
7236,0,7293,2,
5298,7241,7294,0,
7242,0,7295,2,
4818,7243,7296,0,
7245,0,7297,2,
7244,0,7298,2,
7246,0,7299,2,
7247,0,7300,2,
7249,0,7301,2,
7248,0,7302,2,
7251,0,7303,2,
7252,0,7304,2,
7061,7253,7305,0,
7255,0,7306,2,
7254,0,7307,2,
6989,7256,7308,0,
7258,0,7309,2,
7259,0,7310,2,
7234,0,7311,2,
7201,0,7312,2,
7260,7261,7313,0,
7202,0,7314,2,
7265,0,7315,2,
7313,7263,7316,0,
7207,7266,7317,0,
7268,0,7318,2,
7269,0,7319,2,
7271,0,7320,2,
7272,0,7321,2,
7097,7274,7322,0,
7275,0,7323,2,
7277,0,7324,2,
7276,7036,7325,0,
7279,7222,7326,0,
7038,7278,7327,0,
7280,7168,7328,0,
7279,7222,7329,1,
7282,7108,7330,0,
7281,0,7331,2,
6245,7285,7332,0,
6135,7285,7333,1,
7286,0,7334,2,
7280,7168,7335,1,
7289,0,7336,2,
7296,4029,7337,1,
7290,0,7338,2,
7239,7291,7339,0,
7293,6246,7340,0,
4993,7295,7341,0,
7294,0,7342,2,
4992,7294,7343,1,
7296,0,7344,2,
7297,4419,7345,0,
7300,4432,7346,0,
7250,7301,7347,0,
7303,4440,7348,0,
7062,7305,7349,1,
7305,0,7350,2,
7257,7306,7351,0,
7308,0,7352,2,
7309,4483,7353,0,
7312,6821,7354,0,
6997,7315,7355,0,
7267,7317,7356,1,
7317,0,7357,2,
7319,7270,7358,0,
7318,7211,7359,0,
7213,7321,7360,0,
7318,7211,7361,1,
7265,7316,7362,1,
7322,0,7363,2,
7225,7324,7364,0,
7325,0,7365,2,
7326,0,7366,2,
7327,0,7367,2,
7328,0,7368,2,
7332,0,7369,2,
7175,7334,7370,0,
7333,0,7371,2,
7336,6974,7372,0,
5197,7339,7373,1,
1513,7337,7374,0,
7340,0,7375,2,
7343,6250,7376,0,
5047,7342,7377,0,
1259,7341,7378,1,
4422,7344,7379,0,
7343,6250,7380,1,
1302,7337,7381,0,
4930,7345,7382,0,
1527,7337,7383,0,
4937,7346,7384,0,
7344,4173,7385,0,
7188,7347,7386,1,
4941,7348,7387,0,
1597,7337,7388,0,
7347,0,7389,2,
7349,0,7390,2,
7062,7350,7391,0,
1978,7337,7392,0,
6624,7351,7393,1,
7351,0,7394,2,
4963,7353,7395,0,
7060,7315,7396,0,
7354,0,7397,2,
7355,0,7398,2,
7275,7360,7399,1,
7356,0,7400,2,
7150,7358,7401,0,
7358,7320,7402,0,
7267,7357,7403,0,
7360,0,7404,2,
7359,0,7405,2,
7362,0,7406,2,
7221,7363,7407,0,
7223,7365,7408,0,
7329,7364,7409,1,
7231,7368,7410,0,
7364,0,7411,2,
7330,7367,7412,0,
7229,7366,7413,0,
6704,7362,7414,0,
7288,7369,7415,0,
7238,7370,7416,1,
7372,7338,7417,0,
7373,6806,7418,1,
7374,0,7419,2,
7373,6806,7420,0,
7377,0,7421,2,
7376,0,7422,2,
7378,0,7423,2,
7379,0,7424,2,
7381,0,7425,2,
1212,7382,7426,1,
7383,0,7427,2,
7370,0,7428,2,
1279,7384,7429,1,
7385,1527,7430,0,
1294,7387,7431,1,
1513,7385,7432,0,
7388,0,7433,2,
7188,7389,7434,0,
7386,0,7435,2,
1597,7385,7436,0,
7391,0,7437,2,
7392,0,7438,2,
7385,1978,7439,0,
7393,0,7440,2,
6624,7394,7441,0,
7361,0,7442,2,
1281,7395,7443,1,
7396,7126,7444,0,
7398,7397,7445,0,
7359,7400,7446,0,
7401,7154,7447,0,
7402,0,7448,2,
7403,0,7449,2,
7361,7400,7450,0,
7323,7404,7451,0,
7356,7405,7452,0,
6601,7406,7453,0,
7407,0,7454,2,
7415,7228,7455,0,
7283,7407,7456,1,
7408,0,7457,2,
7409,0,7458,2,
7412,0,7459,2,
7329,7411,7460,0,
7413,0,7461,2,
7287,7410,7462,1,
7410,0,7463,2,
7335,7413,7464,1,
7414,0,7465,2,
7102,7415,7466,1,
7416,0,7467,2,
4641,7419,7468,0,
7375,7418,7469,0,
7420,0,7470,2,
7421,7422,7471,0,
4653,7425,7472,0,
4652,7424,7473,0,
7426,0,7474,2,
4660,7427,7475,0,
7238,7428,7476,0,
7429,0,7477,2,
7430,0,7478,2,
7431,5300,7479,1,
7443,0,7480,2,
7444,0,7481,2,
4683,7433,7482,0,
7434,7390,7483,0,
7435,7390,7484,0,
7436,0,7485,2,
4689,7438,7486,0,
7439,0,7487,2,
6449,7440,7488,0,
7441,0,7489,2,
7431,0,7490,2,
7442,7356,7491,0,
6362,7440,7492,1,
7434,0,7493,2,
7432,0,7494,2,
7445,7481,7495,0,
7492,6156,7496,1,
7446,0,7497,2,
7448,7273,7498,0,
7447,0,7499,2,
7451,0,7500,2,
7453,0,7501,2,
7455,0,7502,2,
7283,7454,7503,0,
7456,0,7504,2,
7232,7457,7505,0,
7335,7461,7506,0,
7462,0,7507,2,
7460,0,7508,2,
7464,0,7509,2,
7287,7463,7510,0,
6241,7466,7511,1,
7468,4820,7512,0,
5199,7471,7513,1,
7471,0,7514,2,
7472,4828,7515,0,
1212,7473,7516,1,
7475,4835,7517,0,
7476,0,7518,2,
4664,7478,7519,0,
4723,7494,7520,0,
7492,0,7521,2,
7491,0,7522,2,
7482,4853,7523,0,
7483,0,7524,2,
4686,7485,7525,0,
7486,4857,7526,0,
4699,7487,7527,0,
7488,0,7528,2,
7490,5258,7529,0,
6441,7479,7530,0,
7495,0,7531,2,
7449,7497,7532,0,
7498,7499,7533,0,
7450,7498,7534,0,
7399,7499,7535,0,
7522,7356,7536,1,
7536,7359,7537,0,
7522,7537,7538,1,
7501,7284,7539,0,
7504,7458,7540,0,
7503,7458,7541,0,
7505,7459,7542,0,
7506,7507,7543,0,
7510,0,7544,2,
7509,7507,7545,0,
7284,7502,7546,0,
1259,7512,7547,1,
5256,7514,7548,0,
7513,6351,7549,0,
1212,7515,7550,1,
7513,6351,7551,1,
7516,0,7552,2,
1279,7517,7553,1,
1279,7519,7554,1,
7530,0,7555,2,
1281,7523,7556,1,
7524,7437,7557,0,
1281,7525,7558,1,
1294,7526,7559,1,
1294,7527,7560,1,
7489,7528,7561,0,
7503,0,7562,2,
7521,6267,7563,0,
7506,0,7564,2,
7529,0,7565,2,
1259,7520,7566,1,
7531,7496,7567,0,
7532,0,7568,2,
7533,0,7569,2,
7533,7361,7570,1,
7534,7535,7571,0,
7533,7450,7572,0,
7539,7502,7573,0,
7541,0,7574,2,
7531,7496,7575,1,
7542,0,7576,2,
7543,0,7577,2,
7545,7467,7578,0,
7362,7546,7579,1,
7547,0,7580,2,
7548,0,7581,2,
7549,0,7582,2,
7550,0,7583,2,
7553,0,7584,2,
7554,0,7585,2,
7556,0,7586,2,
7558,0,7587,2,
7559,0,7588,2,
7560,5264,7589,1,
7560,0,7590,2,
7561,7135,7591,0,
7545,0,7592,2,
7561,0,7593,2,
7566,0,7594,2,
7563,0,7595,2,
7567,0,7596,2,
5549,7588,7597,1,
7399,7568,7598,0,
7452,7569,7599,0,
6797,7570,7600,1,
7570,0,7601,2,
7571,0,7602,2,
7572,0,7603,2,
7573,0,7604,2,
7574,7508,7605,0,
7576,7292,7606,0,
7577,7544,7607,0,
7579,6704,7608,1,
7581,7582,7609,0,
5665,7588,7610,0,
7589,0,7611,2,
7590,5264,7612,0,
7593,7067,7613,1,
7591,0,7614,2,
7593,6992,7615,0,
7416,7592,7616,0,
7264,7614,7617,0,
7595,7596,7618,0,
7532,7603,7619,0,
7598,0,7620,2,
7600,0,7621,2,
7599,0,7622,2,
6797,7601,7623,0,
7600,7281,7624,1,
7604,7465,7625,0,
7606,0,7626,2,
7607,7416,7627,0,
5443,7609,7628,1,
7609,0,7629,2,
7607,0,7630,2,
7613,6726,7631,1,
7616,0,7632,2,
7610,0,7633,2,
7612,0,7634,2,
7597,0,7635,2,
7613,0,7636,2,
7615,0,7637,2,
7618,0,7638,2,
7500,7620,7639,0,
7331,7621,7640,0,
7622,7538,7641,0,
7619,7399,7642,1,
7623,0,7643,2,
7624,6349,7644,0,
7575,7625,7645,1,
7617,7240,7646,0,
7399,7619,7647,1,
7624,0,7648,2,
7625,0,7649,2,
7416,7632,7650,1,
7650,7607,7651,0,
7416,7651,7652,1,
7628,6714,7653,0,
5545,7629,7654,0,
7630,7467,7655,0,
7628,6714,7656,1,
7636,6726,7657,0,
6039,7631,7658,1,
5772,7633,7659,0,
5310,7634,7660,0,
7631,0,7661,2,
7638,7658,7662,0,
7639,7602,7663,0,
7642,0,7664,2,
7641,7603,7665,0,
7640,0,7666,2,
7371,7647,7667,0,
7645,0,7668,2,
7644,0,7669,2,
7646,0,7670,2,
7575,7649,7671,0,
6249,7648,7672,0,
7658,7618,7673,1,
7654,0,7674,2,
7653,0,7675,2,
7655,0,7676,2,
7656,7477,7677,1,
7656,7477,7678,0,
7661,6272,7679,0,
7589,7659,7680,1,
7659,0,7681,2,
7657,0,7682,2,
7660,0,7683,2,
7662,0,7684,2,
7663,0,7685,2,
7643,7666,7686,0,
7116,7665,7687,1,
7333,7664,7688,1,
7665,0,7689,2,
7663,7456,7690,1,
7051,7668,7691,0,
7667,0,7692,2,
7417,7670,7693,0,
7626,7669,7694,0,
7671,0,7695,2,
7672,0,7696,2,
7673,0,7697,2,
6976,7668,7698,1,
7674,7675,7699,0,
7676,7518,7700,0,
7637,7682,7701,0,
7683,5104,7702,1,
7372,7670,7703,0,
7678,0,7704,2,
7611,7681,7705,0,
7679,0,7706,2,
5104,7683,7707,0,
7705,0,7708,2,
7706,7684,7709,0,
7540,7685,7710,0,
7687,0,7711,2,
7688,0,7712,2,
7686,0,7713,2,
7116,7689,7714,0,
7690,0,7715,2,
7691,0,7716,2,
7693,0,7717,2,
7686,7687,7718,1,
7694,0,7719,2,
7698,0,7720,2,
5882,7699,7721,1,
7699,0,7722,2,
7702,0,7723,2,
7707,0,7724,2,
7703,0,7725,2,
7504,7685,7726,0,
7701,0,7727,2,
7709,0,7728,2,
7710,0,7729,2,
7711,7713,7730,0,
7712,7333,7731,0,
7715,7511,7732,1,
7714,0,7733,2,
7511,7715,7734,0,
7469,7717,7735,0,
7695,7716,7736,0,
7719,7696,7737,0,
7718,6709,7738,0,
7718,0,7739,2,
6984,7721,7740,1,
7721,0,7741,2,
5882,7722,7742,0,
7724,7723,7743,0,
7725,7293,7744,1,
7240,7727,7745,0,
7725,7236,7746,0,
7726,0,7747,2,
7727,7240,7748,1,
7708,7724,7749,0,
7605,7729,7750,0,
7730,0,7751,2,
7731,0,7752,2,
7734,0,7753,2,
7733,7692,7754,0,
6608,7739,7755,0,
7737,0,7756,2,
7738,0,7757,2,
7735,0,7758,2,
7673,7736,7759,1,
7736,0,7760,2,
7553,7740,7761,1,
7058,7741,7762,0,
7584,7740,7763,0,
7742,0,7764,2,
7747,7562,7765,0,
7743,0,7766,2,
7744,6346,7767,1,
6813,7748,7768,0,
7744,0,7769,2,
7746,0,7770,2,
7745,0,7771,2,
7748,0,7772,2,
6717,7772,7773,1,
7750,0,7774,2,
7733,7751,7775,0,
7732,7752,7776,0,
7409,7765,7777,1,
7750,7627,7778,0,
7754,7753,7779,0,
7754,7751,7780,0,
7750,7464,7781,1,
7697,7760,7782,0,
7298,7759,7783,0,
7470,7758,7784,0,
7757,7756,7785,0,
7755,0,7786,2,
7244,7759,7787,1,
7761,0,7788,2,
7762,0,7789,2,
7763,0,7790,2,
7766,5259,7791,0,
7768,0,7792,2,
7769,6346,7793,0,
7771,7311,7794,0,
7767,0,7795,2,
7773,7728,7796,0,
7773,7709,7797,1,
7578,7774,7798,0,
7776,0,7799,2,
7775,0,7800,2,
7608,7777,7801,1,
7778,0,7802,2,
7780,0,7803,2,
7777,0,7804,2,
7779,7751,7805,0,
7698,7781,7806,1,
7781,0,7807,2,
7782,0,7808,2,
7785,0,7809,2,
7380,7784,7810,1,
7783,0,7811,2,
7784,0,7812,2,
7787,0,7813,2,
7678,7788,7814,0,
7677,7788,7815,0,
7764,7789,7816,0,
6891,7794,7817,1,
7793,0,7818,2,
7509,7774,7819,0,
7796,0,7820,2,
7817,6143,7821,1,
7797,0,7822,2,
7798,0,7823,2,
7800,7712,7824,1,
7799,7753,7825,0,
7688,7800,7826,0,
7801,0,7827,2,
7776,7803,7828,0,
7608,7804,7829,0,
7805,0,7830,2,
7720,7807,7831,0,
7808,7811,7832,0,
7810,0,7833,2,
7380,7812,7834,0,
7809,7786,7835,0,
7814,0,7836,2,
6354,7816,7837,1,
7816,0,7838,2,
7770,7818,7839,0,
7819,0,7840,2,
7817,0,7841,2,
7792,7820,7842,0,
6607,7822,7843,1,
7652,7823,7844,0,
7826,0,7845,2,
7824,7052,7846,1,
7825,0,7847,2,
6711,7822,7848,0,
7824,0,7849,2,
7806,7830,7850,0,
7829,7806,7851,0,
7828,0,7852,2,
7829,0,7853,2,
7831,0,7854,2,
7055,7833,7855,0,
7834,0,7856,2,
7832,0,7857,2,
7700,7823,7858,0,
7837,7252,7859,1,
7790,7836,7860,0,
7837,0,7861,2,
6354,7838,7862,0,
7840,7564,7863,0,
6980,7833,7864,1,
7841,6266,7865,0,
7418,7839,7866,1,
7479,7838,7867,0,
7842,0,7868,2,
7866,6629,7869,1,
7843,0,7870,2,
7844,7802,7871,0,
7843,7423,7872,1,
7848,0,7873,2,
7827,7847,7874,0,
7845,7692,7875,0,
7846,0,7876,2,
7462,7863,7877,1,
7851,0,7878,2,
7849,7052,7879,0,
7852,7753,7880,0,
7855,0,7881,2,
7846,7835,7882,1,
7386,7858,7883,1,
7554,7859,7884,1,
7861,7304,7885,0,
7862,0,7886,2,
7585,7859,7887,0,
7864,7586,7888,1,
7866,0,7889,2,
7867,6354,7890,0,
7858,0,7891,2,
7864,0,7892,2,
7865,0,7893,2,
7821,7868,7894,0,
7443,7869,7895,1,
7868,7821,7896,1,
7870,7423,7897,0,
7872,0,7898,2,
7871,0,7899,2,
7876,7786,7900,0,
7874,7830,7901,0,
7732,7875,7902,1,
7787,7877,7903,1,
7850,7874,7904,0,
7871,7872,7905,0,
7879,0,7906,2,
7801,7880,7907,1,
7854,7878,7908,0,
7856,7881,7909,0,
7883,0,7910,2,
7877,0,7911,2,
7882,0,7912,2,
7884,0,7913,2,
7887,0,7914,2,
7885,0,7915,2,
6522,7886,7916,0,
7484,7891,7917,0,
7888,0,7918,2,
7892,7586,7919,0,
7480,7869,7920,0,
7889,6727,7921,0,
7435,7891,7922,0,
7890,0,7923,2,
7894,0,7924,2,
7895,0,7925,2,
7897,0,7926,2,
7896,7054,7927,1,
7898,7899,7928,0,
7901,0,7929,2,
7902,0,7930,2,
7900,7809,7931,0,
7905,0,7932,2,
7903,0,7933,2,
7904,0,7934,2,
7896,7054,7935,0,
7907,7474,7936,1,
7907,7474,7937,0,
7857,7898,7938,1,
7552,7903,7939,0,
7551,7909,7940,1,
7813,7911,7941,0,
7909,0,7942,2,
7857,7898,7943,0,
7915,7914,7944,0,
7479,7916,7945,1,
7565,7923,7946,0,
7917,0,7947,2,
7919,0,7948,2,
7922,0,7949,2,
7920,0,7950,2,
7921,0,7951,2,
7893,7924,7952,0,
7946,7555,7953,0,
7873,7926,7954,0,
7927,7580,7955,1,
7928,0,7956,2,
7246,7930,7957,1,
7929,7853,7958,0,
7931,0,7959,2,
7927,7580,7960,0,
7516,7933,7961,1,
7908,7934,7962,0,
7299,7930,7963,0,
7935,0,7964,2,
7937,0,7965,2,
7941,0,7966,2,
7939,0,7967,2,
7940,0,7968,2,
7938,7899,7969,0,
7938,7871,7970,1,
7943,0,7971,2,
7551,7942,7972,0,
7945,7944,7973,1,
7557,7947,7974,0,
7248,7940,7975,1,
7944,0,7976,2,
7945,0,7977,2,
7951,7950,7978,0,
7949,7493,7979,0,
7952,0,7980,2,
7767,7952,7981,1,
7955,7954,7982,1,
7832,7956,7983,0,
7959,7906,7984,0,
7954,0,7985,2,
7957,0,7986,2,
7806,7958,7987,1,
7960,0,7988,2,
7963,7936,7989,0,
7961,7962,7990,1,
7962,0,7991,2,
7963,0,7992,2,
7966,7967,7993,0,
7969,0,7994,2,
7302,7968,7995,0,
7349,7979,7996,1,
7972,0,7997,2,
7254,7974,7998,1,
7970,0,7999,2,
7953,0,8000,2,
7888,7978,8001,1,
7978,0,8002,2,
7974,0,8003,2,
7558,7975,8004,1,
7587,7975,8005,0,
7953,7597,8006,0,
7977,7976,8007,0,
8007,0,8008,2,
7795,7980,8009,0,
7314,7981,8010,0,
7982,0,8011,2,
7983,0,8012,2,
7955,7985,8013,0,
7986,7936,8014,0,
7984,0,8015,2,
7987,0,8016,2,
7879,7986,8017,0,
7990,0,8018,2,
7989,0,8019,2,
7964,7988,8020,0,
7987,7583,8021,1,
7961,7991,8022,0,
7931,7986,8023,0,
7971,7994,8024,0,
7970,7993,8025,1,
7995,0,8026,2,
7957,7984,8027,1,
7993,0,8028,2,
8000,7635,8029,1,
7981,0,8030,2,
7635,8000,8031,0,
7998,0,8032,2,
7918,8002,8033,0,
8003,7307,8034,0,
8004,0,8035,2,
8005,0,8036,2,
8006,0,8037,2,
7996,0,8038,2,
8031,0,8039,2,
8009,0,8040,2,
8011,7932,8041,0,
8013,0,8042,2,
8016,7583,8043,0,
8014,8015,8044,0,
8017,0,8045,2,
7965,8019,8046,0,
8023,0,8047,2,
8022,0,8048,2,
8020,0,8049,2,
8021,0,8050,2,
8025,8018,8051,0,
7982,8024,8052,1,
7997,8026,8053,0,
7999,8028,8054,0,
8027,7912,8055,0,
8027,7912,8056,1,
7202,8030,8057,1,
8033,0,8058,2,
8034,0,8059,2,
8029,7973,8060,0,
8010,0,8061,2,
7680,8037,8062,0,
8040,8061,8063,0,
8041,8012,8064,0,
8044,0,8065,2,
8043,8018,8066,0,
8046,0,8067,2,
8045,7992,8068,0,
8050,8015,8069,0,
8050,8018,8070,0,
8052,7910,8071,1,
8043,0,8072,2,
8052,7883,8073,0,
8051,8050,8074,0,
8053,0,8075,2,
8054,0,8076,2,
8056,0,8077,2,
8057,7594,8078,1,
7352,8059,8079,0,
8060,7680,8080,0,
8008,8039,8081,0,
7948,8058,8082,0,
7677,8053,8083,1,
8057,7594,8084,0,
8063,0,8085,2,
8078,7910,8086,1,
8064,0,8087,2,
8066,0,8088,2,
7895,8063,8089,1,
8046,8065,8090,0,
8068,8047,8091,0,
8050,8067,8092,0,
8069,8014,8093,0,
8071,0,8094,2,
7815,8075,8095,0,
8073,0,8096,2,
7190,8079,8097,1,
8004,8082,8098,1,
8084,0,8099,2,
8082,0,8100,2,
8079,0,8101,2,
8083,0,8102,2,
7677,8075,8103,0,
8078,7910,8104,0,
7925,8085,8105,0,
8086,8020,8106,1,
8087,8042,8107,0,
8086,8049,8108,0,
8088,8048,8109,0,
8090,0,8110,2,
7936,8091,8111,1,
8092,0,8112,2,
8093,0,8113,2,
8021,8090,8114,1,
8095,0,8115,2,
8097,0,8116,2,
8104,0,8117,2,
8035,8100,8118,0,
8101,7190,8119,0,
8103,0,8120,2,
8105,0,8121,2,
8106,0,8122,2,
8107,0,8123,2,
8108,0,8124,2,
8109,0,8125,2,
8070,8110,8126,0,
8112,8072,8127,0,
8111,0,8128,2,
8074,8110,8129,0,
7860,8115,8130,0,
8111,8055,8131,1,
8098,8116,8132,1,
8099,8117,8133,0,
8116,0,8134,2,
8118,0,8135,2,
8119,0,8136,2,
8120,7704,8137,0,
7761,8137,8138,1,
8123,8122,8139,0,
8089,8133,8140,1,
8126,0,8141,2,
8025,8125,8142,0,
8055,8128,8143,0,
8127,8113,8144,0,
8129,0,8145,2,
8130,0,8146,2,
7884,8130,8147,1,
8056,8131,8148,1,
8077,8131,8149,0,
8123,8122,8150,1,
8098,8134,8151,0,
8036,8135,8152,0,
7310,8136,8153,0,
8132,0,8154,2,
8133,0,8155,2,
8083,8152,8156,1,
8143,8114,8157,0,
7990,8144,8158,1,
8139,0,8159,2,
8140,7996,8160,1,
8150,7996,8161,1,
8142,0,8162,2,
8109,8141,8163,0,
7996,8150,8164,0,
7913,8146,8165,0,
8147,7973,8166,0,
8131,8148,8167,1,
8167,1198,8168,0,
8131,8168,8169,1,
8114,8143,8170,1,
8149,0,8171,2,
8089,8155,8172,0,
8151,0,8173,2,
8152,0,8174,2,
8153,7262,8175,1,
8140,0,8176,2,
8169,8077,8177,0,
8160,7998,8178,1,
8124,8159,8179,0,
8073,8161,8180,0,
8094,8161,8181,0,
8076,8162,8182,0,
8025,8163,8183,1,
8164,0,8184,2,
8157,8158,8185,0,
8165,0,8186,2,
8161,8073,8187,1,
8170,0,8188,2,
8171,1198,8189,0,
8176,8038,8190,0,
6269,8175,8191,1,
8158,8157,8192,1,
8158,0,8193,2,
8166,8029,8194,0,
8102,8174,8195,0,
8165,7973,8196,0,
8172,0,8197,2,
8160,8032,8198,0,
8121,8197,8199,0,
8191,0,8200,2,
8178,8179,8201,1,
8180,0,8202,2,
8183,0,8203,2,
8182,8145,8204,0,
8196,0,8205,2,
8177,0,8206,2,
8188,8189,8207,1,
8194,7680,8208,0,
8192,0,8209,2,
8149,8188,8210,0,
8183,8185,8211,1,
8157,8193,8212,1,
8179,0,8213,2,
8178,0,8214,2,
8195,0,8215,2,
8198,0,8216,2,
8190,0,8217,2,
8199,0,8218,2,
8156,8200,8219,1,
8204,0,8220,2,
8001,8199,8221,1,
8181,8201,8222,0,
8202,8184,8223,0,
8071,8204,8224,1,
8185,8203,8225,0,
8008,8205,8226,0,
8208,7702,8227,0,
8210,8209,8228,0,
8210,8192,8229,1,
8177,8207,8230,0,
8156,8200,8231,0,
8214,8213,8232,0,
8081,8205,8233,0,
8217,8216,8234,0,
8001,8218,8235,0,
8094,8220,8236,0,
8181,8220,8237,0,
8222,8220,8238,0,
8221,0,8239,2,
8225,8224,8240,0,
8234,0,8241,2,
8227,5259,8242,0,
8224,8225,8243,1,
8228,0,8244,2,
8228,8211,8245,0,
8224,0,8246,2,
8212,8229,8247,1,
8247,1198,8248,0,
8212,8248,8249,1,
8230,0,8250,2,
8223,0,8251,2,
8226,0,8252,2,
8232,0,8253,2,
8231,0,8254,2,
8233,0,8255,2,
8235,0,8256,2,
8254,8215,8257,0,
8236,0,8258,2,
8237,0,8259,2,
8238,0,8260,2,
8241,8239,8261,1,
8240,8187,8262,0,
8242,5142,8263,0,
8062,8255,8264,0,
8243,0,8265,2,
8244,1198,8266,0,
8245,8243,8267,1,
8230,8249,8268,0,
8225,8246,8269,1,
8251,8201,8270,0,
8029,8252,8271,0,
8241,8239,8272,0,
8258,8096,8273,0,
8223,8259,8274,0,
8261,8116,8275,1,
8272,0,8276,2,
8116,8261,8277,0,
8138,8257,8278,1,
8264,0,8279,2,
8245,8265,8280,0,
8211,8266,8281,1,
8269,8267,8282,1,
8282,1198,8283,0,
8269,8283,8284,1,
8268,0,8285,2,
8270,0,8286,2,
8271,0,8287,2,
8257,0,8288,2,
8256,8276,8289,0,
8161,8273,8290,1,
8138,8288,8291,0,
8278,0,8292,2,
8201,8274,8293,1,
8277,0,8294,2,
7749,8279,8295,0,
8287,8039,8296,0,
8275,8220,8297,0,
8222,8275,8298,0,
8280,0,8299,2,
8268,8281,8300,0,
7708,8279,8301,0,
8286,8253,8302,0,
8289,0,8303,2,
8290,0,8304,2,
8291,8147,8305,0,
8302,8260,8306,0,
8293,0,8307,2,
8147,8292,8308,0,
8132,8289,8309,1,
8295,0,8310,2,
8302,0,8311,2,
8290,8240,8312,1,
8299,1198,8313,0,
8300,8284,8314,0,
8300,0,8315,2,
8301,0,8316,2,
8298,8220,8317,0,
8297,8222,8318,0,
8291,0,8319,2,
8154,8303,8320,0,
8305,0,8321,2,
8240,8304,8322,0,
8275,8306,8323,1,
8317,0,8324,2,
8309,8191,8325,0,
8318,0,8326,2,
7791,8310,8327,0,
8280,8312,8328,0,
8309,8200,8329,1,
8312,8313,8330,1,
8314,0,8331,2,
8275,8311,8332,0,
8308,8080,8333,0,
8316,7702,8334,0,
8320,0,8335,2,
8321,8186,8336,0,
8322,8307,8337,0,
8323,0,8338,2,
8325,0,8339,2,
8332,0,8340,2,
8327,0,8341,2,
8334,0,8342,2,
8293,8322,8343,1,
8329,0,8344,2,
8324,8294,8345,0,
8322,0,8346,2,
8314,8330,8347,0,
8173,8335,8348,0,
8337,0,8349,2,
8338,8307,8350,0,
8328,8343,8351,0,
8344,8275,8352,0,
8341,5361,8353,0,
8344,8220,8354,0,
8277,8344,8355,0,
8343,0,8356,2,
8345,8340,8357,0,
8346,8307,8358,1,
8347,0,8359,2,
8329,8339,8360,0,
8326,8340,8361,0,
8339,8294,8362,0,
7724,8342,8363,0,
8348,0,8364,2,
8262,8350,8365,0,
8329,8357,8366,1,
8349,8323,8367,0,
8360,0,8368,2,
8353,0,8369,2,
8361,8362,8370,0,
8354,8298,8371,0,
8355,0,8372,2,
8356,8328,8373,1,
8351,0,8374,2,
8219,8348,8375,1,
8352,8311,8376,0,
8219,8364,8377,0,
8370,0,8378,2,
8292,8368,8379,0,
8365,0,8380,2,
8367,0,8381,2,
8366,8365,8382,1,
8376,0,8383,2,
4455,8369,8384,0,
8365,8366,8385,0,
8371,0,8386,2,
8374,1198,8387,0,
8366,0,8388,2,
8358,8373,8389,1,
8389,1198,8390,0,
8358,8390,8391,1,
8375,0,8392,2,
8377,8292,8393,0,
8379,8392,8394,0,
8147,8378,8395,0,
8381,8380,8396,0,
8382,0,8397,2,
8368,8392,8398,0,
8384,5142,8399,0,
8386,8372,8400,0,
8383,8339,8401,0,
8347,8391,8402,0,
8388,8365,8403,1,
8377,0,8404,2,
8393,0,8405,2,
8393,8147,8406,0,
8395,8394,8407,0,
8396,0,8408,2,
8399,0,8409,2,
8394,8378,8410,0,
8400,8401,8411,0,
8402,0,8412,2,
8398,8378,8413,0,
8405,8319,8414,0,
8406,0,8415,2,
8407,0,8416,2,
8351,8408,8417,0,
8375,8411,8418,1,
8408,8387,8419,1,
8413,0,8420,2,
8410,0,8421,2,
8414,8421,8422,0,
8336,8415,8423,0,
8418,8385,8424,1,
8382,8417,8425,1,
8417,8397,8426,0,
8385,8418,8427,0,
8402,8419,8428,0,
8404,8420,8429,0,
8422,0,8430,2,
8427,8333,8431,0,
8427,8292,8432,0,
8423,8416,8433,0,
8147,8422,8434,1,
8308,8427,8435,0,
8424,0,8436,2,
8278,8429,8437,1,
8424,8426,8438,1,
8403,8425,8439,1,
8439,1198,8440,0,
8403,8440,8441,1,
8428,0,8442,2,
8208,8430,8443,0,
8166,8430,8444,0,
8432,0,8445,2,
7973,8433,8446,1,
8435,0,8447,2,
8437,8278,8448,1,
8448,8427,8449,0,
8437,8449,8450,1,
8436,8397,8451,0,
8431,0,8452,2,
4455,8430,8453,0,
8437,0,8454,2,
8434,0,8455,2,
8428,8441,8456,0,
8436,8438,8457,1,
8457,1198,8458,0,
8436,8458,8459,1,
8435,8060,8460,0,
8242,8430,8461,0,
8194,8430,8462,0,
8431,7702,8463,0,
8430,8227,8464,0,
8443,0,8465,2,
8444,0,8466,2,
8434,8445,8467,0,
8446,0,8468,2,
8446,8435,8469,1,
8450,0,8470,2,
8451,8417,8471,0,
8263,8453,8472,0,
8463,0,8473,2,
8427,8454,8474,1,
8432,8455,8475,1,
8456,8459,8476,0,
8456,0,8477,2,
8460,0,8478,2,
8462,0,8479,2,
8461,0,8480,2,
8464,0,8481,2,
8301,8465,8482,0,
8226,8466,8483,0,
8467,0,8484,2,
8435,8468,8485,0,
8469,0,8486,2,
8363,8481,8487,0,
8472,0,8488,2,
8296,8479,8489,0,
8471,8470,8490,0,
8471,8450,8491,1,
8447,8468,8492,1,
8476,0,8493,2,
8353,8480,8494,0,
7702,8482,8495,1,
8029,8483,8496,1,
8484,8447,8497,0,
8486,0,8498,2,
7680,8489,8499,1,
8494,0,8500,2,
8488,8409,8501,0,
5142,8494,8502,1,
8474,8491,8503,1,
8503,1198,8504,0,
8474,8504,8505,1,
5259,8487,8506,1,
8495,0,8507,2,
8496,8485,8508,1,
8497,0,8509,2,
8496,0,8510,2,
8499,0,8511,2,
8431,8495,8512,1,
8506,0,8513,2,
8501,5306,8514,0,
8476,8505,8515,0,
8502,0,8516,2,
5268,8500,8517,0,
5142,8500,8518,0,
8478,8499,8519,0,
8506,8473,8520,0,
8502,1305,8521,0,
5202,8500,8522,0,
8507,8513,8523,0,
8508,8470,8524,0,
8471,8509,8525,0,
8485,8510,8526,0,
8507,8511,8527,0,
4670,8514,8528,1,
8490,8509,8529,0,
8509,8490,8530,1,
8485,8510,8531,1,
8515,0,8532,2,
8517,0,8533,2,
8518,0,8534,2,
8516,8431,8535,0,
8522,0,8536,2,
8507,4455,8537,0,
8519,0,8538,2,
8520,0,8539,2,
8431,8523,8540,0,
8524,8498,8541,0,
8526,8511,8542,0,
8538,8452,8543,0,
8511,8526,8544,1,
8526,8527,8545,0,
8535,8523,8546,0,
8537,8513,8547,0,
8528,0,8548,2,
8534,5210,8549,0,
8475,8530,8550,1,
8550,1198,8551,0,
8475,8551,8552,1,
8529,8498,8553,0,
8486,8529,8554,1,
5664,8533,8555,0,
4445,8528,8556,0,
5307,8536,8557,0,
8540,0,8558,2,
8502,8540,8559,1,
8525,8541,8560,0,
8543,0,8561,2,
8507,8542,8562,1,
4455,8549,8563,1,
8545,5301,8564,0,
8555,5003,8565,1,
8546,0,8566,2,
4955,8557,8567,1,
8535,8547,8568,0,
8552,0,8569,2,
8508,8553,8570,1,
8492,8554,8571,1,
8571,1198,8572,0,
8492,8572,8573,1,
8542,8513,8574,0,
8555,0,8575,2,
8542,8507,8576,0,
8539,8558,8577,0,
8560,0,8578,2,
8560,8561,8579,0,
8563,0,8580,2,
8512,8561,8581,0,
8566,8563,8582,0,
8567,0,8583,2,
8568,0,8584,2,
5003,8563,8585,0,
8569,8515,8586,0,
8531,8570,8587,1,
8587,1198,8588,0,
8531,8588,8589,1,
8574,8507,8590,0,
8565,0,8591,2,
8506,8576,8592,1,
5003,8575,8593,0,
8568,4670,8594,0,
8521,8567,8595,0,
8577,0,8596,2,
8512,8579,8597,1,
8578,8543,8598,1,
8564,8580,8599,0,
8581,8560,8600,0,
8583,4670,8601,0,
8582,0,8602,2,
8584,8548,8603,1,
8586,8573,8604,0,
8589,0,8605,2,
8516,8590,8606,1,
8590,5142,8607,0,
8593,0,8608,2,
8586,0,8609,2,
8556,8595,8610,0,
8594,0,8611,2,
8559,8596,8612,0,
8544,8598,8613,1,
8613,1198,8614,0,
8544,8614,8615,1,
8562,8597,8616,1,
8616,1198,8617,0,
8562,8617,8618,1,
8599,4670,8619,0,
8601,8568,8620,0,
8602,8584,8621,0,
8611,8567,8622,0,
8599,0,8623,2,
8604,0,8624,2,
8600,8585,8625,0,
8604,8605,8626,0,
8600,8596,8627,0,
8580,8607,8628,1,
8599,8548,8629,1,
8577,8600,8630,1,
5060,8608,8631,0,
8612,8610,8632,0,
8615,0,8633,2,
8618,0,8634,2,
8621,0,8635,2,
8620,0,8636,2,
8622,0,8637,2,
8612,8600,8638,0,
8626,0,8639,2,
8559,8627,8640,1,
8619,8583,8641,0,
8565,5003,8642,1,
8642,8620,8643,0,
8565,8643,8644,1,
8592,8630,8645,1,
8645,1198,8646,0,
8592,8646,8647,1,
8583,8619,8648,1,
8620,5003,8649,0,
4702,8631,8650,1,
8632,8625,8651,0,
8633,8634,8652,0,
8603,8635,8653,0,
8637,8636,8654,0,
8641,5003,8655,0,
8638,8635,8656,0,
8635,8638,8657,1,
8606,8640,8658,1,
8658,1198,8659,0,
8606,8659,8660,1,
8641,8591,8661,1,
8626,8633,8662,0,
8650,0,8663,2,
8599,8650,8664,0,
8651,0,8665,2,
8664,0,8666,2,
8654,0,8667,2,
8638,8653,8668,0,
8652,8626,8669,0,
8603,8656,8670,1,
8628,8657,8671,1,
8671,1198,8672,0,
8628,8672,8673,1,
8660,0,8674,2,
8626,8652,8675,0,
8662,0,8676,2,
8655,8623,8677,1,
8677,8650,8678,0,
8655,8678,8679,1,
1198,8665,8680,0,
8669,0,8681,2,
8668,8667,8682,0,
8667,8668,8683,1,
8629,8670,8684,1,
8684,1198,8685,0,
8629,8685,8686,1,
8673,0,8687,2,
8674,8647,8688,0,
8669,8647,8689,0,
8680,0,8690,2,
8644,8682,8691,1,
8686,0,8692,2,
8648,8683,8693,1,
8693,1198,8694,0,
8648,8694,8695,1,
8675,8688,8696,0,
8682,8644,8697,0,
8689,0,8698,2,
8666,8690,8699,0,
8661,8691,8700,1,
8700,1198,8701,0,
8661,8701,8702,1,
8687,8692,8703,0,
8695,0,8704,2,
8696,8687,8705,0,
8649,8697,8706,1,
8696,0,8707,2,
8699,0,8708,2,
8702,0,8709,2,
8704,8696,8710,0,
8705,0,8711,2,
8703,8696,8712,0,
8663,8706,8713,1,
8708,8681,8714,0,
8708,8206,8715,0,
8708,8359,8716,0,
8708,8315,8717,0,
8708,8285,8718,0,
8708,8331,8719,0,
8708,8250,8720,0,
8708,8639,8721,0,
8708,8532,8722,0,
8703,8709,8723,0,
8708,8477,8724,0,
8708,8493,8725,0,
8712,8704,8726,0,
8708,8711,8727,0,
8708,8442,8728,0,
8708,8056,8729,0,
8708,8698,8730,0,
8712,0,8731,2,
8708,8676,8732,0,
8679,8713,8733,1,
8733,1198,8734,0,
8679,8734,8735,1,
8708,8609,8736,0,
8708,8412,8737,0,
8708,8707,8738,0,
8708,8624,8739,0,
8647,8714,8740,1,
8284,8717,8741,1,
8249,8720,8742,1,
8281,8718,8743,1,
8207,8715,8744,1,
8735,0,8745,2,
8618,8732,8746,1,
8615,8721,8747,1,
8573,8736,8748,1,
8660,8730,8749,1,
8419,8737,8750,1,
8459,8724,8751,1,
8673,8738,8752,1,
8169,8729,8753,1,
8441,8728,8754,1,
8686,8727,8755,1,
8552,8722,8756,1,
8330,8719,8757,1,
8391,8716,8758,1,
8589,8739,8759,1,
8723,8710,8760,0,
8505,8725,8761,1,
8726,0,8762,2,
8708,8731,8763,0,
8741,8743,8764,0,
8748,0,8765,2,
8754,0,8766,2,
8761,0,8767,2,
8756,0,8768,2,
8744,0,8769,2,
8758,0,8770,2,
8752,0,8771,2,
8749,0,8772,2,
8695,8763,8773,1,
8740,0,8774,2,
8742,8744,8775,0,
8751,0,8776,2,
8750,0,8777,2,
8747,0,8778,2,
8746,0,8779,2,
8745,1305,8780,0,
8757,8741,8781,0,
8758,8743,8782,0,
8754,8750,8783,0,
8761,8751,8784,0,
8759,0,8785,2,
8747,0,8786,2,
8753,0,8787,2,
8742,0,8788,2,
8743,0,8789,2,
8760,0,8790,2,
8708,8762,8791,0,
8758,8754,8792,0,
8742,8741,8793,0,
8757,8758,8794,0,
8755,0,8795,2,
8741,0,8796,2,
8757,0,8797,2,
8775,0,8798,2,
8740,8779,8799,0,
8702,8791,8800,1,
8775,8753,8801,0,
8741,8789,8802,0,
8794,8784,8803,0,
8748,8768,8804,0,
8772,8771,8805,0,
8783,0,8806,2,
8773,0,8807,2,
8708,8790,8808,0,
8782,8781,8809,0,
8784,8783,8810,0,
8768,8786,8811,0,
8748,8785,8812,0,
8754,8777,8813,0,
8759,8786,8814,0,
8744,8787,8815,0,
8786,8785,8816,0,
8771,8748,8817,0,
8792,8761,8818,0,
8780,8808,8819,1,
8795,8807,8820,0,
8809,0,8821,2,
8811,8812,8822,0,
8799,8771,8823,0,
8771,8807,8824,0,
8813,0,8825,2,
8809,8801,8826,0,
8800,0,8827,2,
8817,8740,8828,0,
8799,0,8829,2,
8780,8808,8830,1,
8755,8807,8831,0,
8807,8786,8832,0,
8177,8801,8833,0,
8802,0,8834,2,
8815,0,8835,2,
8784,8806,8836,0,
8816,0,8837,2,
8764,8798,8838,0,
8814,0,8839,2,
8799,8837,8840,0,
8827,8819,8841,0,
8822,8810,8842,0,
8823,8772,8843,0,
8838,0,8844,2,
8836,0,8845,2,
8793,8835,8846,0,
8810,8821,8847,0,
8824,8819,8848,0,
8825,8751,8849,0,
8828,8830,8850,0,
8839,8779,8851,0,
8829,8805,8852,0,
8809,8833,8853,0,
8834,8757,8854,0,
8820,8827,8855,0,
8831,0,8856,2,
8840,0,8857,2,
8851,0,8858,2,
8847,0,8859,2,
8855,8819,8860,0,
8842,0,8861,2,
8842,8843,8862,0,
8849,0,8863,2,
8856,8827,8864,0,
8846,0,8865,2,
8852,0,8866,2,
8803,8844,8867,0,
8804,8845,8868,0,
8850,8832,8869,0,
8857,8805,8870,0,
8854,8865,8871,0,
8822,8859,8872,0,
8860,8861,8873,0,
8862,8860,8874,0,
8761,8863,8875,0,
8740,8858,8876,0,
8868,8820,8877,0,
8867,0,8878,2,
8864,0,8879,2,
8870,0,8880,2,
8879,8819,8881,0,
8874,0,8882,2,
8872,0,8883,2,
8873,8843,8884,0,
8826,8874,8885,0,
8871,0,8886,2,
8878,8866,8887,0,
8853,8874,8888,0,
8876,0,8889,2,
8875,0,8890,2,
8820,8880,8891,0,
8890,8768,8892,0,
8818,8886,8893,0,
8881,0,8894,2,
8885,0,8895,2,
8843,8883,8896,0,
8884,0,8897,2,
8889,8772,8898,0,
8877,8887,8899,0,
8891,0,8900,2,
8894,8774,8901,0,
8899,0,8902,2,
8896,0,8903,2,
8898,0,8904,2,
8897,8882,8905,0,
8897,8895,8906,0,
8893,0,8907,2,
8841,8900,8908,0,
8892,8907,8909,0,
8860,8903,8910,0,
8901,8841,8911,0,
8848,8904,8912,0,
8908,8902,8913,0,
8897,8910,8914,0,
8884,8910,8915,0,
8765,8908,8916,0,
8908,8759,8917,0,
8908,8747,8918,0,
8746,8908,8919,0,
8910,0,8920,2,
8911,0,8921,2,
8908,0,8922,2,
8912,0,8923,2,
8908,8756,8924,0,
8740,8778,8925,1,
8925,8908,8926,0,
8740,8926,8927,1,
8909,0,8928,2,
8777,8913,8929,0,
8766,8913,8930,0,
8913,0,8931,2,
8884,8920,8932,0,
8769,8913,8933,0,
8869,8928,8934,0,
8894,8923,8935,0,
8776,8913,8936,0,
8756,8922,8937,0,
8765,8922,8938,0,
8796,8913,8939,0,
8922,8774,8940,0,
8056,8913,8941,0,
8788,8913,8942,0,
8741,8742,8943,1,
8943,8913,8944,0,
8741,8944,8945,1,
8757,8743,8946,1,
8946,8913,8947,0,
8757,8947,8948,1,
8787,8913,8949,0,
8920,8897,8950,0,
8758,8741,8951,1,
8951,8913,8952,0,
8758,8952,8953,1,
8913,8770,8954,0,
8913,8797,8955,0,
8913,8767,8956,0,
8747,8922,8957,0,
8746,8922,8958,0,
8749,8922,8959,0,
8922,8767,8960,0,
8937,8938,8961,1,
8961,8935,8962,0,
8937,8962,8963,1,
8950,8882,8964,0,
8950,8874,8965,0,
8935,8913,8966,0,
8931,8788,8967,0,
8787,8931,8968,0,
8789,8931,8969,0,
8796,8931,8970,0,
8948,0,8971,2,
8945,0,8972,2,
8769,8931,8973,0,
8960,8937,8974,1,
8974,8935,8975,0,
8960,8975,8976,1,
8959,0,8977,2,
8788,8931,8978,0,
8916,8917,8979,1,
8979,8935,8980,0,
8916,8980,8981,1,
8957,8958,8982,1,
8982,8935,8983,0,
8957,8983,8984,1,
8953,0,8985,2,
8770,8931,8986,0,
8777,8931,8987,0,
8759,8935,8988,0,
8931,8767,8989,0,
8935,0,8990,2,
8958,0,8991,2,
8939,0,8992,2,
8955,0,8993,2,
8766,8931,8994,0,
8918,8919,8995,1,
8995,8935,8996,0,
8918,8996,8997,1,
8934,0,8998,2,
8940,0,8999,2,
8776,8931,9000,0,
8746,8990,9001,0,
8935,8998,9002,0,
8963,0,9003,2,
8999,8977,9004,1,
9004,8935,9005,0,
8999,9005,9006,1,
8997,0,9007,2,
8966,8765,9008,0,
8976,0,9009,2,
8984,0,9010,2,
8981,0,9011,2,
8917,8990,9012,0,
8938,8990,9013,0,
8994,0,9014,2,
8987,0,9015,2,
8966,8749,9016,0,
9000,8989,9017,1,
9017,8935,9018,0,
9000,9018,9019,1,
8966,8752,9020,0,
8966,8755,9021,0,
8991,8927,9022,1,
9022,8935,9023,0,
8991,9023,9024,1,
8929,8930,9025,1,
9025,9002,9026,0,
8929,9026,9027,1,
9019,0,9028,2,
9002,8931,9029,0,
8992,8993,9030,1,
9030,9002,9031,0,
8992,9031,9032,1,
9002,0,9033,2,
9007,9006,9034,0,
8994,8929,9035,1,
9035,9002,9036,0,
8994,9036,9037,1,
9020,0,9038,2,
9021,0,9039,2,
9015,9014,9040,1,
9040,9002,9041,0,
9015,9041,9042,1,
8954,9000,9043,1,
9043,9002,9044,0,
8954,9044,9045,1,
8936,9002,9046,0,
8933,9002,9047,0,
8970,9002,9048,0,
8941,9002,9049,0,
8969,9002,9050,0,
8942,9002,9051,0,
9008,0,9052,2,
8973,9002,9053,0,
9002,8971,9054,0,
9001,8841,9055,0,
8978,9002,9056,0,
8949,9002,9057,0,
8924,9002,9058,0,
8936,8956,9059,1,
9059,9002,9060,0,
8936,9060,9061,1,
8955,8954,9062,1,
9062,9002,9063,0,
8955,9063,9064,1,
9010,9011,9065,0,
8986,8987,9066,1,
9066,9002,9067,0,
8986,9067,9068,1,
9002,8985,9069,0,
9012,0,9070,2,
9016,0,9071,2,
9013,0,9072,2,
9027,0,9073,2,
9061,0,9074,2,
9037,0,9075,2,
9068,0,9076,2,
9033,8913,9077,0,
9024,9070,9078,0,
9069,0,9079,2,
9064,0,9080,2,
9033,8931,9081,0,
9029,8747,9082,0,
8930,9033,9083,0,
8933,9033,9084,0,
8968,9033,9085,0,
8949,9033,9086,0,
8967,9033,9087,0,
9045,0,9088,2,
8969,9033,9089,0,
9047,0,9090,2,
9048,0,9091,2,
9051,0,9092,2,
8972,9033,9093,0,
9046,0,9094,2,
9029,8787,9095,0,
9049,0,9096,2,
9050,0,9097,2,
9054,0,9098,2,
9053,0,9099,2,
9029,8056,9100,0,
9055,0,9101,2,
9033,8767,9102,0,
9034,0,9103,2,
9057,0,9104,2,
9056,0,9105,2,
9029,8755,9106,0,
9029,8773,9107,0,
9058,0,9108,2,
9029,8800,9109,0,
9065,0,9110,2,
9074,9003,9111,0,
8914,9103,9112,0,
9042,9080,9113,0,
9077,8749,9114,0,
9073,9028,9115,0,
9076,9032,9116,0,
9078,0,9117,2,
9077,8752,9118,0,
9081,8755,9119,0,
9081,8773,9120,0,
9107,0,9121,2,
9109,0,9122,2,
9105,9104,9123,0,
9077,8756,9124,0,
9081,8759,9125,0,
9087,0,9126,2,
9085,0,9127,2,
9089,0,9128,2,
9082,0,9129,2,
9086,0,9130,2,
9084,0,9131,2,
9088,9075,9132,0,
9081,8056,9133,0,
9083,0,9134,2,
9091,9092,9135,0,
9095,0,9136,2,
9097,9090,9137,0,
9093,0,9138,2,
8977,9101,9139,0,
8932,9100,9140,0,
8964,9100,9141,0,
9077,8056,9142,0,
9081,8769,9143,0,
8965,9100,9144,0,
8789,9077,9145,0,
8988,9102,9146,1,
9146,8908,9147,0,
8988,9147,9148,1,
8964,9103,9149,0,
9081,8752,9150,0,
9077,8774,9151,0,
8964,9110,9152,0,
8914,9110,9153,0,
8797,9081,9154,0,
9106,0,9155,2,
9072,9108,9156,0,
9143,0,9157,2,
9142,0,9158,2,
9149,0,9159,2,
9111,0,9160,2,
9113,0,9161,2,
9121,9038,9162,0,
9115,0,9163,2,
9116,0,9164,2,
9112,0,9165,2,
9124,0,9166,2,
9125,0,9167,2,
9126,9130,9168,0,
9132,0,9169,2,
9134,9094,9170,0,
9129,9052,9171,0,
9127,9096,9172,0,
9128,9131,9173,0,
9133,0,9174,2,
9098,9138,9175,0,
8964,9117,9176,0,
9140,0,9177,2,
9139,8921,9178,0,
9141,0,9179,2,
8914,9117,9180,0,
9155,9071,9181,0,
9114,0,9182,2,
9119,0,9183,2,
9144,0,9184,2,
9152,0,9185,2,
9122,9039,9186,0,
9120,0,9187,2,
9118,0,9188,2,
9153,0,9189,2,
9150,0,9190,2,
9151,0,9191,2,
9148,0,9192,2,
9154,0,9193,2,
9145,0,9194,2,
9183,9182,9195,0,
8932,9160,9196,0,
9180,0,9197,2,
9193,9194,9198,0,
9158,9157,9199,0,
9167,9166,9200,0,
9174,9136,9201,0,
9172,9099,9202,0,
9009,9170,9203,0,
8915,9169,9204,0,
9137,9168,9205,0,
9135,9173,9206,0,
9175,0,9207,2,
8932,9169,9208,0,
8964,9160,9209,0,
8964,9164,9210,0,
8964,9163,9211,0,
8914,9163,9212,0,
8914,9169,9213,0,
8932,9164,9214,0,
8914,9161,9215,0,
9185,9184,9216,0,
9176,0,9217,2,
8964,9161,9218,0,
8932,9161,9219,0,
8914,9160,9220,0,
9178,0,9221,2,
220,9179,9222,0,
8964,9169,9223,0,
8915,9161,9224,0,
9190,9191,9225,0,
8914,9164,9226,0,
8932,9163,9227,0,
8915,9164,9228,0,
9187,9188,9229,0,
9192,9156,9230,0,
9230,0,9231,2,
9199,9123,9232,0,
9196,0,9233,2,
9198,9079,9234,0,
9171,9200,9235,0,
9202,0,9236,2,
9206,0,9237,2,
9201,0,9238,2,
9205,0,9239,2,
9203,0,9240,2,
9204,0,9241,2,
8950,9207,9242,0,
8932,9207,9243,0,
9210,0,9244,2,
9212,0,9245,2,
9208,0,9246,2,
9214,0,9247,2,
9213,0,9248,2,
9211,0,9249,2,
9215,0,9250,2,
9209,0,9251,2,
9218,0,9252,2,
8914,9207,9253,0,
8915,9207,9254,0,
9219,0,9255,2,
8964,9221,9256,0,
9220,0,9257,2,
9224,0,9258,2,
9162,9195,9259,0,
9223,0,9260,2,
9226,0,9261,2,
9186,9229,9262,0,
9228,0,9263,2,
9181,9225,9264,0,
9227,0,9265,2,
9222,0,9266,2,
9254,0,9267,2,
9257,9255,9268,0,
9263,9189,9269,0,
9234,0,9270,2,
9235,0,9271,2,
9232,0,9272,2,
9231,8964,9273,0,
9165,9241,9274,0,
8914,9238,9275,0,
8950,9237,9276,0,
9231,8914,9277,0,
8914,9236,9278,0,
9239,9100,9279,1,
9279,8910,9280,0,
9239,9280,9281,1,
8915,9238,9282,0,
8932,9237,9283,0,
8915,9236,9284,0,
8932,9238,9285,0,
8914,9237,9286,0,
8914,9240,9287,0,
8965,9238,9288,0,
8915,9239,9289,0,
8914,9239,9290,0,
8932,9236,9291,0,
9242,0,9292,2,
9243,0,9293,2,
9244,9177,9294,0,
8915,9237,9295,0,
8964,9240,9296,0,
8965,9236,9297,0,
8932,9240,9298,0,
8964,9238,9299,0,
9256,0,9300,2,
8964,9236,9301,0,
9233,9197,9302,0,
9253,0,9303,2,
8932,9231,9304,0,
9295,0,9305,2,
9297,0,9306,2,
9298,0,9307,2,
8932,9272,9308,0,
8914,9272,9309,0,
8964,9271,9310,0,
8932,9270,9311,0,
8950,9270,9312,0,
8915,9272,9313,0,
8914,9270,9314,0,
9285,0,9315,2,
9286,0,9316,2,
9159,9267,9317,0,
9278,0,9318,2,
9275,0,9319,2,
9276,0,9320,2,
9289,0,9321,2,
9277,0,9322,2,
9287,0,9323,2,
9288,0,9324,2,
9283,0,9325,2,
9282,0,9326,2,
9284,0,9327,2,
9273,0,9328,2,
8884,9281,9329,0,
9290,0,9330,2,
9291,0,9331,2,
9303,9260,9332,0,
9248,9293,9333,0,
9302,9258,9334,0,
9281,0,9335,2,
8965,9272,9336,0,
8915,9270,9337,0,
9265,9300,9338,0,
8905,9281,9339,0,
8914,9271,9340,0,
8964,9272,9341,0,
9296,0,9342,2,
9304,0,9343,2,
9320,9319,9344,0,
9318,9292,9345,0,
9340,0,9346,2,
9274,9343,9347,0,
9312,0,9348,2,
9309,0,9349,2,
9311,0,9350,2,
9313,0,9351,2,
9310,0,9352,2,
9308,0,9353,2,
9316,9315,9354,0,
9314,0,9355,2,
9268,9305,9356,0,
9317,9306,9357,0,
9342,9261,9358,0,
9217,9324,9359,0,
9322,9246,9360,0,
9328,9327,9361,0,
9250,9325,9362,0,
9329,0,9363,2,
9251,9326,9364,0,
9216,9321,9365,0,
9323,9247,9366,0,
9332,9331,9367,0,
9294,9330,9368,0,
9269,9307,9369,0,
9336,0,9370,2,
9337,0,9371,2,
9353,9249,9372,0,
9348,9349,9373,0,
9352,9351,9374,0,
9347,9345,9375,1,
9375,8874,9376,0,
9347,9376,9377,1,
9245,9350,9378,0,
9344,0,9379,2,
9354,9252,9380,0,
9365,9366,9381,0,
9358,9363,9382,0,
9364,9362,9383,0,
9361,9333,9384,0,
9356,9359,9385,0,
9357,9360,9386,0,
9345,0,9387,2,
9334,9344,9388,1,
9388,8874,9389,0,
9334,9389,9390,1,
9367,0,9391,2,
9368,0,9392,2,
9369,9335,9393,1,
9393,8874,9394,0,
9369,9394,9395,1,
9370,9371,9396,0,
9346,9338,9397,0,
9374,9378,9398,0,
9372,9355,9399,0,
9373,0,9400,2,
9377,9262,9401,0,
9390,9259,9402,0,
9397,9396,9403,0,
9385,0,9404,2,
9386,0,9405,2,
9380,0,9406,2,
9383,0,9407,2,
9382,0,9408,2,
9381,0,9409,2,
9387,8882,9410,0,
9379,8882,9411,0,
9384,0,9412,2,
9395,9264,9413,0,
9402,0,9414,2,
9398,0,9415,2,
9399,0,9416,2,
9400,8882,9417,0,
9401,0,9418,2,
9413,0,9419,2,
9403,0,9420,2,
0,0,9421,1,
9421,9266,9422,1,
9421,9299,9423,1,
9421,9301,9424,1,
9421,9341,9425,1,
9421,9339,9426,1,
9421,9411,9427,1,
9421,9410,9428,1,
9421,9417,9429,1,
9421,9392,9430,1,
9421,9406,9431,1,
9421,9391,9432,1,
9421,9416,9433,1,
9421,9408,9434,1,
9421,9407,9435,1,
9421,9412,9436,1,
9421,9415,9437,1,
9421,9409,9438,1,
9421,9404,9439,1,
9421,9405,9440,1,
9421,9420,9441,1,
9421,9419,9442,1,
9421,9414,9443,1,
9421,9418,9444,1,
9421,9002,9445,1,
9421,8931,9446,1,
9421,8920,9447,1,
9421,8906,9448,1,
9421,8882,9449,1,
9421,8895,9450,1,
9421,8895,9451,1,
9421,140,9452,1,
9421,8708,9453,1,
