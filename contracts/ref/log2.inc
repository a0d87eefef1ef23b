28,0,32,2,
27,0,33,2,
30,0,34,2,
24,0,35,2,
23,0,36,2,
26,0,37,2,
25,0,38,2,
25,24,39,0,
30,23,40,0,
29,0,41,2,
5,0,42,2,
6,0,43,2,
8,0,44,2,
0,0,45,2,
3,0,46,2,
2,0,47,2,
9,0,48,2,
14,0,49,2,
18,0,50,2,
17,0,51,2,
11,0,52,2,
12,0,53,2,
15,0,54,2,
21,0,55,2,
20,0,56,2,
22,0,57,2,
16,0,58,2,
19,0,59,2,
4,0,60,2,
7,0,61,2,
1,0,62,2,
13,0,63,2,
10,0,64,2,
27,26,65,0,
29,28,66,0,
36,35,67,0,
41,34,68,0,
38,37,69,0,
33,32,70,0,
66,65,71,0,
40,39,72,0,
39,23,73,0,
55,56,74,0,
50,51,75,0,
46,47,76,0,
42,43,77,0,
54,49,78,0,
52,53,79,0,
44,48,80,0,
31,0,81,2,
70,68,82,0,
67,69,83,0,
71,72,84,0,
71,73,85,0,
76,60,86,0,
77,61,87,0,
75,59,88,0,
79,63,89,0,
78,58,90,0,
80,64,91,0,
74,57,92,0,
83,82,93,0,
84,0,94,2,
85,45,95,0,
88,92,96,0,
89,90,97,0,
87,91,98,0,
93,0,99,2,
95,62,100,0,
97,96,101,0,
93,81,102,0,
94,99,103,0,
100,86,104,0,
102,0,105,2,
103,17,106,0,
103,16,107,0,
103,18,108,0,
21,103,109,0,
22,103,110,0,
20,103,111,0,
19,103,112,0,
15,103,113,0,
10,103,114,0,
11,103,115,0,
9,103,116,0,
8,103,117,0,
7,103,118,0,
6,103,119,0,
13,103,120,0,
14,103,121,0,
12,103,122,0,
5,103,123,0,
2,103,124,0,
0,103,125,0,
1,103,126,0,
103,0,127,2,
103,23,128,0,
103,24,129,0,
103,25,130,0,
104,98,131,0,
103,81,132,0,
4,103,133,0,
3,103,134,0,
108,0,135,2,
106,0,136,2,
107,0,137,2,
112,0,138,2,
109,0,139,2,
111,0,140,2,
110,0,141,2,
112,111,142,0,
113,0,143,2,
110,109,144,0,
108,113,145,0,
106,113,146,0,
125,0,147,2,
123,0,148,2,
106,108,149,0,
107,113,150,0,
114,0,151,2,
116,0,152,2,
118,0,153,2,
120,0,154,2,
119,0,155,2,
122,0,156,2,
115,0,157,2,
121,0,158,2,
117,0,159,2,
110,109,160,1,
110,109,161,1,
124,0,162,2,
127,36,163,0,
128,0,164,2,
129,0,165,2,
127,38,166,0,
130,0,167,2,
131,101,168,0,
127,27,169,1,
133,0,170,2,
134,0,171,2,
127,81,172,0,
126,0,173,2,
106,137,174,0,
108,136,175,0,
136,135,176,0,
107,135,177,0,
109,141,178,0,
140,138,179,0,
110,139,180,0,
139,141,181,0,
111,138,182,0,
112,140,183,0,
162,134,184,1,
149,107,185,0,
144,142,186,0,
151,115,187,1,
152,117,188,1,
151,116,189,1,
153,117,190,1,
154,121,191,1,
155,118,192,1,
155,123,193,1,
154,122,194,1,
156,115,195,1,
107,136,196,0,
158,113,197,1,
143,107,198,1,
106,135,199,0,
135,112,200,1,
103,141,201,0,
140,109,202,1,
161,0,203,2,
126,147,204,0,
171,133,205,1,
163,0,206,2,
166,0,207,2,
168,0,208,2,
162,126,209,1,
170,123,210,1,
103,140,211,0,
181,183,212,0,
175,113,213,0,
174,108,214,0,
176,137,215,0,
107,175,216,0,
181,179,217,0,
181,142,218,0,
180,183,219,0,
144,182,220,0,
146,177,221,0,
182,178,222,0,
145,174,223,0,
174,143,224,0,
177,113,225,0,
179,178,226,0,
183,178,227,0,
181,182,228,0,
209,0,229,2,
132,208,230,0,
210,0,231,2,
175,143,232,0,
174,113,233,0,
177,143,234,0,
177,106,235,0,
150,175,236,0,
180,179,237,0,
180,182,238,0,
185,113,239,0,
185,143,240,0,
144,183,241,0,
142,178,242,0,
144,179,243,0,
180,142,244,0,
187,0,245,2,
189,0,246,2,
188,0,247,2,
190,0,248,2,
193,0,249,2,
192,0,250,2,
191,0,251,2,
194,0,252,2,
195,0,253,2,
174,0,254,2,
196,0,255,2,
197,0,256,2,
198,0,257,2,
199,0,258,2,
175,0,259,2,
182,0,260,2,
183,0,261,2,
200,0,262,2,
202,0,263,2,
201,0,264,2,
202,160,265,0,
203,201,266,0,
125,209,267,0,
164,206,268,0,
207,37,269,0,
204,0,270,2,
205,0,271,2,
184,0,272,2,
215,113,273,0,
213,137,274,0,
215,143,275,0,
216,143,276,0,
214,143,277,0,
221,222,278,0,
219,223,279,0,
218,221,280,0,
225,136,281,0,
224,135,282,0,
231,272,283,0,
191,253,284,0,
252,195,285,0,
184,271,286,0,
234,136,287,0,
235,143,288,0,
233,135,289,0,
232,137,290,0,
226,240,291,0,
243,239,292,0,
244,236,293,0,
243,223,294,0,
244,240,295,0,
244,223,296,0,
243,240,297,0,
241,223,298,0,
241,236,299,0,
223,222,300,0,
219,239,301,0,
238,221,302,0,
221,227,303,0,
236,227,304,0,
238,223,305,0,
218,236,306,0,
223,227,307,0,
239,227,308,0,
186,221,309,0,
212,236,310,0,
220,223,311,0,
228,221,312,0,
186,236,313,0,
217,223,314,0,
220,239,315,0,
212,223,316,0,
186,240,317,0,
240,227,318,0,
212,221,319,0,
226,236,320,0,
239,222,321,0,
240,222,322,0,
218,223,323,0,
218,240,324,0,
217,240,325,0,
228,223,326,0,
220,240,327,0,
242,240,328,0,
242,223,329,0,
186,223,330,0,
237,236,331,0,
244,221,332,0,
220,221,333,0,
219,221,334,0,
238,240,335,0,
241,221,336,0,
243,221,337,0,
241,240,338,0,
217,239,339,0,
217,236,340,0,
242,239,341,0,
237,223,342,0,
244,239,343,0,
226,239,344,0,
242,236,345,0,
237,239,346,0,
228,236,347,0,
228,239,348,0,
242,221,349,0,
237,221,350,0,
220,236,351,0,
226,221,352,0,
238,239,353,0,
243,236,354,0,
219,240,355,0,
241,239,356,0,
228,240,357,0,
236,222,358,0,
186,239,359,0,
217,221,360,0,
218,239,361,0,
237,240,362,0,
219,236,363,0,
226,223,364,0,
212,239,365,0,
245,188,366,0,
246,188,367,0,
187,247,368,0,
245,247,369,0,
248,193,370,0,
250,193,371,0,
190,249,372,0,
248,249,373,0,
251,195,374,0,
251,253,375,0,
255,254,376,0,
257,197,377,0,
260,261,378,0,
258,259,379,0,
201,263,380,0,
264,263,381,0,
266,202,382,0,
229,147,383,0,
125,229,384,0,
267,0,385,2,
210,272,386,0,
265,0,387,2,
268,0,388,2,
165,268,389,1,
269,0,390,2,
231,184,391,0,
212,240,392,0,
238,236,393,0,
218,275,394,0,
217,274,395,0,
219,277,396,0,
220,273,397,0,
218,276,398,0,
226,277,399,0,
278,0,400,2,
282,227,401,0,
279,0,402,2,
228,275,403,0,
217,281,404,0,
280,0,405,2,
383,173,406,0,
243,289,407,0,
243,290,408,0,
290,222,409,0,
241,275,410,0,
218,290,411,0,
244,277,412,0,
274,222,413,0,
241,288,414,0,
276,222,415,0,
243,287,416,0,
243,281,417,0,
243,277,418,0,
289,227,419,0,
238,275,420,0,
274,227,421,0,
277,227,422,0,
219,288,423,0,
242,281,424,0,
238,274,425,0,
244,287,426,0,
238,273,427,0,
220,290,428,0,
226,273,429,0,
243,274,430,0,
226,287,431,0,
244,281,432,0,
238,290,433,0,
220,281,434,0,
220,274,435,0,
219,287,436,0,
218,287,437,0,
212,274,438,0,
220,277,439,0,
242,290,440,0,
237,276,441,0,
219,289,442,0,
217,287,443,0,
212,277,444,0,
237,275,445,0,
217,290,446,0,
289,222,447,0,
241,290,448,0,
186,289,449,0,
237,273,450,0,
217,282,451,0,
242,274,452,0,
186,290,453,0,
212,282,454,0,
312,0,455,2,
307,0,456,2,
290,227,457,0,
226,274,458,0,
226,281,459,0,
308,0,460,2,
316,0,461,2,
228,290,462,0,
276,227,463,0,
275,227,464,0,
273,222,465,0,
217,289,466,0,
303,0,467,2,
212,290,468,0,
304,0,469,2,
212,281,470,0,
212,275,471,0,
287,227,472,0,
310,0,473,2,
291,0,474,2,
227,273,475,0,
300,0,476,2,
212,276,477,0,
228,281,478,0,
226,288,479,0,
218,277,480,0,
306,0,481,2,
314,0,482,2,
228,289,483,0,
228,288,484,0,
218,289,485,0,
218,281,486,0,
186,277,487,0,
186,273,488,0,
317,0,489,2,
315,0,490,2,
313,0,491,2,
311,0,492,2,
309,0,493,2,
241,281,494,0,
299,0,495,2,
294,0,496,2,
297,0,497,2,
295,0,498,2,
298,0,499,2,
296,0,500,2,
237,274,501,0,
219,273,502,0,
237,289,503,0,
237,281,504,0,
237,288,505,0,
219,275,506,0,
242,289,507,0,
242,282,508,0,
242,276,509,0,
242,288,510,0,
244,275,511,0,
305,0,512,2,
220,289,513,0,
220,287,514,0,
242,273,515,0,
301,0,516,2,
219,290,517,0,
302,0,518,2,
241,282,519,0,
293,0,520,2,
243,288,521,0,
243,275,522,0,
241,277,523,0,
243,282,524,0,
244,274,525,0,
220,282,526,0,
219,276,527,0,
238,287,528,0,
292,0,529,2,
220,276,530,0,
243,273,531,0,
217,276,532,0,
337,0,533,2,
217,277,534,0,
288,227,535,0,
212,287,536,0,
318,0,537,2,
330,0,538,2,
325,0,539,2,
336,0,540,2,
226,275,541,0,
241,289,542,0,
287,222,543,0,
327,0,544,2,
244,290,545,0,
226,276,546,0,
242,287,547,0,
331,0,548,2,
329,0,549,2,
319,0,550,2,
228,276,551,0,
244,282,552,0,
244,289,553,0,
186,282,554,0,
288,222,555,0,
244,276,556,0,
320,0,557,2,
282,222,558,0,
220,275,559,0,
277,222,560,0,
217,273,561,0,
186,274,562,0,
186,275,563,0,
326,0,564,2,
218,273,565,0,
226,289,566,0,
324,0,567,2,
226,290,568,0,
321,0,569,2,
322,0,570,2,
241,273,571,0,
218,274,572,0,
186,276,573,0,
323,0,574,2,
212,289,575,0,
244,273,576,0,
335,0,577,2,
334,0,578,2,
242,277,579,0,
219,274,580,0,
328,0,581,2,
333,0,582,2,
238,288,583,0,
392,0,584,2,
238,277,585,0,
393,0,586,2,
332,0,587,2,
275,222,588,0,
238,281,589,0,
338,0,590,2,
340,0,591,2,
343,0,592,2,
344,0,593,2,
186,281,594,0,
238,282,595,0,
345,0,596,2,
339,0,597,2,
342,0,598,2,
237,290,599,0,
217,275,600,0,
228,274,601,0,
341,0,602,2,
220,288,603,0,
346,0,604,2,
219,281,605,0,
243,276,606,0,
350,0,607,2,
348,0,608,2,
237,277,609,0,
281,227,610,0,
226,282,611,0,
347,0,612,2,
349,0,613,2,
351,0,614,2,
186,288,615,0,
242,275,616,0,
217,288,617,0,
352,0,618,2,
238,276,619,0,
228,287,620,0,
241,274,621,0,
281,222,622,0,
228,273,623,0,
354,0,624,2,
355,0,625,2,
228,282,626,0,
353,0,627,2,
237,287,628,0,
356,0,629,2,
186,287,630,0,
219,282,631,0,
359,0,632,2,
358,0,633,2,
241,276,634,0,
357,0,635,2,
241,287,636,0,
361,0,637,2,
360,0,638,2,
362,0,639,2,
363,0,640,2,
364,0,641,2,
212,288,642,0,
365,0,643,2,
238,289,644,0,
237,282,645,0,
244,288,646,0,
218,282,647,0,
284,0,648,2,
228,277,649,0,
375,0,650,2,
218,288,651,0,
368,0,652,2,
369,0,653,2,
366,189,654,0,
370,192,655,0,
374,194,656,0,
376,0,657,2,
376,256,658,0,
378,0,659,2,
379,0,660,2,
379,262,661,0,
380,0,662,2,
381,0,663,2,
373,0,664,2,
372,0,665,2,
385,270,666,0,
384,0,667,2,
283,0,668,2,
386,0,669,2,
391,205,670,0,
286,0,671,2,
371,0,672,2,
377,0,673,2,
382,0,674,2,
367,0,675,2,
285,0,676,2,
129,388,677,0,
389,0,678,2,
212,273,679,0,
679,0,680,2,
397,0,681,2,
398,0,682,2,
394,0,683,2,
395,0,684,2,
396,0,685,2,
399,0,686,2,
404,0,687,2,
403,0,688,2,
401,0,689,2,
437,0,690,2,
451,0,691,2,
422,0,692,2,
421,0,693,2,
454,0,694,2,
419,0,695,2,
438,0,696,2,
409,0,697,2,
443,0,698,2,
413,0,699,2,
447,0,700,2,
415,0,701,2,
444,0,702,2,
431,0,703,2,
411,0,704,2,
446,0,705,2,
429,0,706,2,
449,0,707,2,
439,0,708,2,
448,0,709,2,
417,0,710,2,
416,0,711,2,
414,0,712,2,
453,0,713,2,
442,0,714,2,
441,0,715,2,
436,0,716,2,
452,0,717,2,
445,0,718,2,
450,0,719,2,
440,0,720,2,
432,0,721,2,
433,0,722,2,
434,0,723,2,
435,0,724,2,
420,0,725,2,
426,0,726,2,
423,0,727,2,
424,0,728,2,
425,0,729,2,
428,0,730,2,
412,0,731,2,
410,0,732,2,
408,0,733,2,
407,0,734,2,
427,0,735,2,
418,0,736,2,
430,0,737,2,
457,0,738,2,
471,0,739,2,
465,0,740,2,
476,460,741,0,
519,0,742,2,
521,0,743,2,
524,0,744,2,
459,0,745,2,
458,0,746,2,
508,0,747,2,
507,0,748,2,
510,0,749,2,
525,0,750,2,
464,0,751,2,
503,0,752,2,
527,0,753,2,
502,0,754,2,
526,0,755,2,
470,0,756,2,
463,0,757,2,
530,0,758,2,
468,0,759,2,
466,0,760,2,
509,0,761,2,
506,0,762,2,
462,0,763,2,
485,0,764,2,
484,0,765,2,
461,474,766,0,
486,0,767,2,
480,0,768,2,
472,0,769,2,
478,0,770,2,
497,498,771,0,
475,0,772,2,
500,499,773,0,
483,0,774,2,
494,0,775,2,
522,0,776,2,
479,0,777,2,
523,0,778,2,
487,0,779,2,
488,0,780,2,
477,0,781,2,
511,0,782,2,
517,0,783,2,
513,0,784,2,
504,0,785,2,
528,0,786,2,
515,0,787,2,
514,0,788,2,
501,0,789,2,
518,489,790,0,
505,0,791,2,
554,0,792,2,
563,0,793,2,
535,0,794,2,
561,0,795,2,
562,0,796,2,
565,0,797,2,
543,0,798,2,
542,0,799,2,
584,405,800,0,
536,0,801,2,
532,0,802,2,
531,0,803,2,
564,473,804,0,
541,0,805,2,
583,0,806,2,
534,0,807,2,
496,538,808,0,
558,0,809,2,
559,0,810,2,
560,0,811,2,
575,0,812,2,
573,0,813,2,
579,0,814,2,
572,0,815,2,
555,0,816,2,
556,0,817,2,
568,0,818,2,
571,0,819,2,
566,0,820,2,
580,0,821,2,
549,548,822,0,
576,0,823,2,
551,0,824,2,
552,0,825,2,
553,0,826,2,
545,0,827,2,
547,0,828,2,
546,0,829,2,
585,0,830,2,
499,539,831,0,
533,584,832,0,
594,0,833,2,
600,0,834,2,
595,0,835,2,
598,581,836,0,
603,0,837,2,
589,0,838,2,
599,0,839,2,
597,539,840,0,
601,0,841,2,
588,0,842,2,
609,0,843,2,
608,539,844,0,
615,0,845,2,
605,0,846,2,
493,456,847,0,
606,0,848,2,
610,0,849,2,
611,0,850,2,
500,612,851,0,
596,400,852,0,
586,460,853,0,
533,500,854,0,
617,0,855,2,
621,0,856,2,
578,493,857,0,
623,0,858,2,
620,0,859,2,
616,0,860,2,
622,0,861,2,
592,581,862,0,
619,0,863,2,
518,499,864,0,
529,520,865,0,
570,469,866,0,
628,0,867,2,
630,0,868,2,
592,570,869,0,
626,0,870,2,
495,469,871,0,
631,0,872,2,
635,461,873,0,
634,0,874,2,
625,633,875,0,
636,0,876,2,
497,537,877,0,
613,461,878,0,
492,481,879,0,
490,455,880,0,
586,492,881,0,
582,497,882,0,
642,0,883,2,
644,0,884,2,
593,569,885,0,
645,0,886,2,
614,400,887,0,
646,0,888,2,
518,586,889,0,
647,0,890,2,
577,592,891,0,
650,648,892,0,
649,0,893,2,
499,492,894,0,
582,533,895,0,
540,405,896,0,
653,652,897,0,
520,549,898,0,
651,0,899,2,
500,608,900,0,
602,476,901,0,
455,456,902,0,
491,597,903,0,
614,540,904,0,
577,604,905,0,
658,0,906,2,
495,567,907,0,
491,643,908,0,
613,548,909,0,
612,570,910,0,
516,474,911,0,
256,657,912,0,
640,625,913,0,
529,489,914,0,
584,473,915,0,
578,499,916,0,
497,602,917,0,
582,400,918,0,
625,635,919,0,
197,657,920,0,
629,635,921,0,
607,474,922,0,
490,612,923,0,
512,499,924,0,
570,476,925,0,
378,660,926,0,
660,659,927,0,
529,500,928,0,
379,659,929,0,
467,469,930,0,
533,529,931,0,
662,663,932,0,
533,607,933,0,
597,574,934,0,
518,567,935,0,
590,461,936,0,
638,641,937,0,
633,637,938,0,
578,497,939,0,
569,469,940,0,
402,629,941,0,
613,593,942,0,
587,608,943,0,
612,564,944,0,
632,492,945,0,
664,665,946,0,
635,564,947,0,
666,667,948,0,
668,669,949,0,
671,669,950,0,
672,665,951,0,
596,574,952,0,
538,460,953,0,
639,632,954,0,
490,570,955,0,
643,469,956,0,
512,581,957,0,
590,489,958,0,
613,643,959,0,
587,557,960,0,
548,481,961,0,
493,405,962,0,
581,564,963,0,
591,574,964,0,
549,612,965,0,
587,598,966,0,
491,584,967,0,
596,641,968,0,
661,0,969,2,
618,567,970,0,
641,467,971,0,
629,613,972,0,
533,538,973,0,
456,460,974,0,
674,387,975,0,
387,663,976,0,
581,544,977,0,
607,597,978,0,
604,635,979,0,
492,569,980,0,
548,405,981,0,
639,604,982,0,
533,539,983,0,
590,607,984,0,
497,489,985,0,
627,581,986,0,
670,0,987,2,
533,537,988,0,
491,539,989,0,
655,0,990,2,
654,0,991,2,
656,0,992,2,
675,652,993,0,
676,648,994,0,
677,130,995,0,
167,677,996,1,
586,584,997,0,
684,400,998,0,
402,681,999,0,
685,405,1000,0,
683,682,1001,0,
721,455,1002,0,
724,467,1003,0,
684,695,1004,0,
709,491,1005,0,
729,682,1006,0,
732,481,1007,0,
520,703,1008,0,
714,688,1009,0,
727,490,1010,0,
697,469,1011,0,
736,720,1012,0,
520,694,1013,0,
691,455,1014,0,
495,698,1015,0,
725,496,1016,0,
726,715,1017,0,
731,492,1018,0,
529,708,1019,0,
717,702,1020,0,
701,706,1021,0,
737,719,1022,0,
707,699,1023,0,
710,493,1024,0,
698,693,1025,0,
735,705,1026,0,
725,688,1027,0,
456,692,1028,0,
722,512,1029,0,
718,690,1030,0,
730,723,1031,0,
713,700,1032,0,
516,711,1033,0,
733,473,1034,0,
716,697,1035,0,
734,704,1036,0,
493,696,1037,0,
728,482,1038,0,
712,702,1039,0,
734,733,1040,0,
784,791,1041,0,
776,778,1042,0,
753,747,1043,0,
721,587,1044,0,
779,694,1045,0,
728,747,1046,0,
729,784,1047,0,
785,740,1048,0,
680,557,1049,0,
788,711,1050,0,
767,764,1051,0,
582,716,1052,0,
771,773,1053,0,
687,537,1054,0,
742,708,1055,0,
761,456,1056,0,
790,744,1057,0,
752,769,1058,0,
750,550,1059,0,
533,683,1060,0,
783,738,1061,0,
743,749,1062,0,
787,587,1063,0,
789,489,1064,0,
718,570,1065,0,
540,732,1066,0,
529,763,1067,0,
777,703,1068,0,
474,768,1069,0,
734,756,1070,0,
491,774,1071,0,
760,781,1072,0,
762,686,1073,0,
787,582,1074,0,
578,751,1075,0,
791,684,1076,0,
704,481,1077,0,
577,703,1078,0,
786,754,1079,0,
748,772,1080,0,
755,775,1081,0,
741,784,1082,0,
739,702,1083,0,
758,746,1084,0,
770,745,1085,0,
757,740,1086,0,
710,500,1087,0,
814,405,1088,0,
590,760,1089,0,
803,775,1090,0,
763,686,1091,0,
736,400,1092,0,
743,789,1093,0,
824,795,1094,0,
685,564,1095,0,
817,718,1096,0,
497,812,1097,0,
731,820,1098,0,
830,712,1099,0,
808,593,1100,0,
819,705,1101,0,
800,476,1102,0,
810,798,1103,0,
725,482,1104,0,
796,538,1105,0,
707,801,1106,0,
799,811,1107,0,
832,714,1108,0,
574,777,1109,0,
602,829,1110,0,
710,810,1111,0,
813,544,1112,0,
685,780,1113,0,
753,797,1114,0,
825,767,1115,0,
804,759,1116,0,
762,596,1117,0,
813,796,1118,0,
512,807,1119,0,
805,695,1120,0,
815,794,1121,0,
400,809,1122,0,
744,792,1123,0,
831,826,1124,0,
727,809,1125,0,
827,825,1126,0,
722,713,1127,0,
821,537,1128,0,
823,816,1129,0,
838,842,1130,0,
699,704,1131,0,
735,704,1132,0,
840,613,1133,0,
498,841,1134,0,
598,680,1135,0,
564,738,1136,0,
827,761,1137,0,
833,690,1138,0,
587,683,1139,0,
614,837,1140,0,
851,852,1141,0,
789,763,1142,0,
837,811,1143,0,
838,732,1144,0,
577,791,1145,0,
723,795,1146,0,
828,736,1147,0,
847,845,1148,0,
848,764,1149,0,
785,814,1150,0,
729,694,1151,0,
734,708,1152,0,
846,843,1153,0,
709,740,1154,0,
744,759,1155,0,
830,809,1156,0,
758,538,1157,0,
618,751,1158,0,
813,474,1159,0,
850,849,1160,0,
784,777,1161,0,
759,768,1162,0,
719,855,1163,0,
783,768,1164,0,
549,684,1165,0,
724,855,1166,0,
694,824,1167,0,
827,746,1168,0,
779,481,1169,0,
749,473,1170,0,
783,762,1171,0,
730,786,1172,0,
835,697,1173,0,
863,496,1174,0,
854,590,1175,0,
491,698,1176,0,
755,497,1177,0,
743,772,1178,0,
715,550,1179,0,
770,537,1180,0,
845,849,1181,0,
736,816,1182,0,
830,731,1183,0,
718,763,1184,0,
729,711,1185,0,
581,704,1186,0,
708,781,1187,0,
597,798,1188,0,
709,859,1189,0,
728,518,1190,0,
557,809,1191,0,
821,455,1192,0,
716,489,1193,0,
627,802,1194,0,
863,574,1195,0,
828,711,1196,0,
693,842,1197,0,
787,593,1198,0,
792,567,1199,0,
762,796,1200,0,
858,745,1201,0,
806,777,1202,0,
516,720,1203,0,
862,627,1204,0,
405,849,1205,0,
778,710,1206,0,
629,856,1207,0,
624,860,1208,0,
811,842,1209,0,
827,564,1210,0,
848,861,1211,0,
806,818,1212,0,
569,767,1213,0,
625,816,1214,0,
802,805,1215,0,
838,473,1216,0,
597,770,1217,0,
857,819,1218,0,
720,796,1219,0,
748,839,1220,0,
756,859,1221,0,
712,749,1222,0,
512,758,1223,0,
737,763,1224,0,
719,490,1225,0,
721,829,1226,0,
871,748,1227,0,
725,807,1228,0,
867,717,1229,0,
717,696,1230,0,
733,798,1231,0,
604,699,1232,0,
850,740,1233,0,
577,794,1234,0,
540,799,1235,0,
778,780,1236,0,
823,713,1237,0,
715,789,1238,0,
578,810,1239,0,
723,805,1240,0,
868,538,1241,0,
698,795,1242,0,
742,739,1243,0,
557,861,1244,0,
762,639,1245,0,
813,801,1246,0,
728,806,1247,0,
783,723,1248,0,
629,859,1249,0,
747,748,1250,0,
710,680,1251,0,
520,765,1252,0,
752,845,1253,0,
761,686,1254,0,
700,695,1255,0,
793,637,1256,0,
735,718,1257,0,
876,874,1258,0,
792,570,1259,0,
829,460,1260,0,
685,706,1261,0,
814,567,1262,0,
823,732,1263,0,
791,772,1264,0,
640,856,1265,0,
625,826,1266,0,
730,405,1267,0,
835,812,1268,0,
596,691,1269,0,
688,618,1270,0,
491,816,1271,0,
821,641,1272,0,
803,713,1273,0,
574,703,1274,0,
720,695,1275,0,
822,497,1276,0,
807,745,1277,0,
691,539,1278,0,
821,578,1279,0,
778,537,1280,0,
643,682,1281,0,
846,638,1282,0,
806,590,1283,0,
755,467,1284,0,
629,801,1285,0,
736,591,1286,0,
819,498,1287,0,
749,705,1288,0,
825,633,1289,0,
843,842,1290,0,
799,776,1291,0,
712,592,1292,0,
882,699,1293,0,
714,550,1294,0,
745,805,1295,0,
707,618,1296,0,
763,765,1297,0,
735,567,1298,0,
722,742,1299,0,
717,774,1300,0,
881,498,1301,0,
786,765,1302,0,
826,520,1303,0,
788,789,1304,0,
727,814,1305,0,
461,746,1306,0,
614,711,1307,0,
825,719,1308,0,
750,538,1309,0,
887,701,1310,0,
884,725,1311,0,
886,858,1312,0,
786,544,1313,0,
529,767,1314,0,
581,813,1315,0,
687,861,1316,0,
806,830,1317,0,
577,729,1318,0,
845,780,1319,0,
884,683,1320,0,
533,759,1321,0,
724,719,1322,0,
863,627,1323,0,
838,737,1324,0,
802,705,1325,0,
512,739,1326,0,
841,643,1327,0,
758,755,1328,0,
802,798,1329,0,
779,635,1330,0,
799,777,1331,0,
848,867,1332,0,
736,802,1333,0,
516,838,1334,0,
787,815,1335,0,
829,751,1336,0,
810,749,1337,0,
696,706,1338,0,
859,768,1339,0,
753,776,1340,0,
714,789,1341,0,
775,717,1342,0,
872,637,1343,0,
754,544,1344,0,
577,692,1345,0,
883,693,1346,0,
516,769,1347,0,
730,809,1348,0,
635,890,1349,0,
848,820,1350,0,
784,780,1351,0,
518,697,1352,0,
499,798,1353,0,
734,795,1354,0,
796,756,1355,0,
731,834,1356,0,
895,886,1357,0,
641,689,1358,0,
702,781,1359,0,
839,746,1360,0,
816,850,1361,0,
867,890,1362,0,
892,0,1363,2,
785,802,1364,0,
715,752,1365,0,
894,893,1366,0,
758,756,1367,0,
752,695,1368,0,
890,751,1369,0,
730,819,1370,0,
776,812,1371,0,
720,789,1372,0,
828,639,1373,0,
743,739,1374,0,
461,842,1375,0,
817,691,1376,0,
817,703,1377,0,
760,841,1378,0,
896,833,1379,0,
856,593,1380,0,
827,899,1381,0,
888,872,1382,0,
835,549,1383,0,
694,618,1384,0,
863,893,1385,0,
826,490,1386,0,
747,746,1387,0,
897,0,1388,2,
596,759,1389,0,
739,482,1390,0,
841,460,1391,0,
783,537,1392,0,
461,816,1393,0,
640,750,1394,0,
121,892,1395,0,
604,682,1396,0,
709,593,1397,0,
801,699,1398,0,
724,604,1399,0,
825,691,1400,0,
711,815,1401,0,
727,813,1402,0,
614,734,1403,0,
497,780,1404,0,
785,739,1405,0,
747,749,1406,0,
690,807,1407,0,
737,638,1408,0,
749,702,1409,0,
846,584,1410,0,
821,742,1411,0,
715,699,1412,0,
724,870,1413,0,
901,902,1414,0,
884,846,1415,0,
743,703,1416,0,
735,750,1417,0,
405,781,1418,0,
604,833,1419,0,
707,764,1420,0,
709,820,1421,0,
724,700,1422,0,
685,596,1423,0,
713,740,1424,0,
709,696,1425,0,
590,681,1426,0,
903,890,1427,0,
912,0,1428,2,
710,814,1429,0,
752,757,1430,0,
731,814,1431,0,
489,688,1432,0,
115,897,1433,0,
825,540,1434,0,
907,680,1435,0,
819,612,1436,0,
806,805,1437,0,
597,850,1438,0,
729,749,1439,0,
734,455,1440,0,
888,469,1441,0,
838,807,1442,0,
607,680,1443,0,
791,829,1444,0,
753,738,1445,0,
776,704,1446,0,
838,624,1447,0,
754,781,1448,0,
810,604,1449,0,
613,701,1450,0,
758,742,1451,0,
730,489,1452,0,
834,815,1453,0,
768,693,1454,0,
850,689,1455,0,
846,764,1456,0,
729,834,1457,0,
883,637,1458,0,
874,868,1459,0,
726,794,1460,0,
681,592,1461,0,
718,772,1462,0,
533,860,1463,0,
756,824,1464,0,
550,693,1465,0,
748,795,1466,0,
810,460,1467,0,
755,592,1468,0,
909,884,1469,0,
786,549,1470,0,
733,591,1471,0,
629,696,1472,0,
799,713,1473,0,
632,818,1474,0,
482,798,1475,0,
762,754,1476,0,
799,686,1477,0,
492,858,1478,0,
564,751,1479,0,
702,815,1480,0,
549,814,1481,0,
520,681,1482,0,
863,855,1483,0,
835,753,1484,0,
823,868,1485,0,
736,692,1486,0,
698,474,1487,0,
890,740,1488,0,
714,716,1489,0,
708,544,1490,0,
837,711,1491,0,
788,738,1492,0,
725,816,1493,0,
743,481,1494,0,
742,467,1495,0,
799,691,1496,0,
872,608,1497,0,
750,855,1498,0,
727,405,1499,0,
717,567,1500,0,
724,768,1501,0,
753,899,1502,0,
763,899,1503,0,
856,843,1504,0,
802,818,1505,0,
700,859,1506,0,
848,482,1507,0,
819,537,1508,0,
687,818,1509,0,
802,700,1510,0,
709,780,1511,0,
613,893,1512,0,
402,870,1513,0,
690,591,1514,0,
806,796,1515,0,
886,760,1516,0,
833,574,1517,0,
868,456,1518,0,
786,789,1519,0,
400,811,1520,0,
809,682,1521,0,
748,602,1522,0,
632,834,1523,0,
848,706,1524,0,
741,581,1525,0,
782,557,1526,0,
734,841,1527,0,
835,747,1528,0,
717,694,1529,0,
722,564,1530,0,
858,689,1531,0,
827,737,1532,0,
539,842,1533,0,
624,700,1534,0,
761,692,1535,0,
825,693,1536,0,
633,689,1537,0,
728,607,1538,0,
593,842,1539,0,
803,846,1540,0,
837,596,1541,0,
538,769,1542,0,
637,745,1543,0,
835,496,1544,0,
926,0,1545,2,
927,0,1546,2,
455,738,1547,0,
778,696,1548,0,
719,683,1549,0,
748,716,1550,0,
495,683,1551,0,
917,632,1552,0,
752,785,1553,0,
870,767,1554,0,
825,706,1555,0,
722,499,1556,0,
731,742,1557,0,
888,701,1558,0,
828,812,1559,0,
793,537,1560,0,
886,797,1561,0,
516,774,1562,0,
637,693,1563,0,
803,817,1564,0,
825,757,1565,0,
520,759,1566,0,
750,756,1567,0,
489,686,1568,0,
920,198,1569,0,
753,614,1570,0,
820,798,1571,0,
733,811,1572,0,
714,833,1573,0,
736,467,1574,0,
598,824,1575,0,
688,777,1576,0,
816,861,1577,0,
867,754,1578,0,
809,697,1579,0,
860,701,1580,0,
744,698,1581,0,
837,684,1582,0,
755,710,1583,0,
874,592,1584,0,
720,591,1585,0,
727,707,1586,0,
493,794,1587,0,
827,574,1588,0,
765,692,1589,0,
569,699,1590,0,
633,700,1591,0,
924,750,1592,0,
402,768,1593,0,
474,772,1594,0,
799,495,1595,0,
758,550,1596,0,
883,745,1597,0,
629,745,1598,0,
764,861,1599,0,
819,805,1600,0,
783,637,1601,0,
586,681,1602,0,
742,813,1603,0,
726,714,1604,0,
890,405,1605,0,
769,593,1606,0,
769,706,1607,0,
721,734,1608,0,
731,792,1609,0,
497,697,1610,0,
707,829,1611,0,
706,695,1612,0,
928,548,1613,0,
520,776,1614,0,
613,761,1615,0,
883,696,1616,0,
817,602,1617,0,
709,712,1618,0,
876,695,1619,0,
827,893,1620,0,
721,693,1621,0,
855,687,1622,0,
683,797,1623,0,
826,744,1624,0,
782,596,1625,0,
782,592,1626,0,
756,557,1627,0,
778,775,1628,0,
929,200,1629,0,
728,716,1630,0,
614,683,1631,0,
724,633,1632,0,
632,883,1633,0,
726,557,1634,0,
638,770,1635,0,
758,474,1636,0,
758,807,1637,0,
701,767,1638,0,
685,810,1639,0,
732,796,1640,0,
724,876,1641,0,
821,733,1642,0,
886,706,1643,0,
512,774,1644,0,
587,839,1645,0,
835,816,1646,0,
812,456,1647,0,
778,703,1648,0,
904,627,1649,0,
704,574,1650,0,
730,614,1651,0,
722,750,1652,0,
932,103,1653,0,
793,893,1654,0,
803,872,1655,0,
876,890,1656,0,
733,776,1657,0,
680,769,1658,0,
710,591,1659,0,
627,799,1660,0,
492,820,1661,0,
828,482,1662,0,
591,777,1663,0,
719,867,1664,0,
538,801,1665,0,
838,584,1666,0,
496,846,1667,0,
499,688,1668,0,
813,694,1669,0,
872,850,1670,0,
591,764,1671,0,
691,760,1672,0,
810,489,1673,0,
919,884,1674,0,
763,841,1675,0,
596,689,1676,0,
888,860,1677,0,
578,779,1678,0,
735,754,1679,0,
624,883,1680,0,
834,777,1681,0,
745,842,1682,0,
754,820,1683,0,
540,718,1684,0,
890,859,1685,0,
710,490,1686,0,
690,635,1687,0,
855,883,1688,0,
720,764,1689,0,
690,461,1690,0,
750,482,1691,0,
746,686,1692,0,
614,759,1693,0,
699,770,1694,0,
785,757,1695,0,
863,767,1696,0,
516,839,1697,0,
732,794,1698,0,
837,756,1699,0,
495,696,1700,0,
802,859,1701,0,
607,699,1702,0,
705,476,1703,0,
711,499,1704,0,
726,823,1705,0,
726,764,1706,0,
708,824,1707,0,
928,685,1708,0,
823,793,1709,0,
591,696,1710,0,
597,858,1711,0,
701,883,1712,0,
888,627,1713,0,
602,791,1714,0,
938,643,1715,0,
722,730,1716,0,
775,801,1717,0,
720,802,1718,0,
809,481,1719,0,
723,770,1720,0,
712,598,1721,0,
939,783,1722,0,
838,690,1723,0,
799,759,1724,0,
402,692,1725,0,
577,779,1726,0,
784,497,1727,0,
612,797,1728,0,
627,782,1729,0,
867,680,1730,0,
748,473,1731,0,
786,497,1732,0,
940,467,1733,0,
723,781,1734,0,
776,709,1735,0,
586,757,1736,0,
549,705,1737,0,
739,591,1738,0,
778,497,1739,0,
833,768,1740,0,
826,624,1741,0,
785,635,1742,0,
632,893,1743,0,
753,748,1744,0,
830,461,1745,0,
817,607,1746,0,
837,695,1747,0,
578,772,1748,0,
747,695,1749,0,
876,500,1750,0,
838,833,1751,0,
856,688,1752,0,
805,829,1753,0,
797,805,1754,0,
778,460,1755,0,
848,858,1756,0,
639,899,1757,0,
845,751,1758,0,
863,624,1759,0,
724,682,1760,0,
817,495,1761,0,
886,846,1762,0,
734,749,1763,0,
476,812,1764,0,
783,618,1765,0,
776,774,1766,0,
495,691,1767,0,
838,762,1768,0,
518,788,1769,0,
725,538,1770,0,
815,537,1771,0,
774,467,1772,0,
828,842,1773,0,
817,713,1774,0,
742,474,1775,0,
737,803,1776,0,
726,518,1777,0,
684,704,1778,0,
806,714,1779,0,
569,686,1780,0,
866,801,1781,0,
803,860,1782,0,
792,769,1783,0,
498,717,1784,0,
722,490,1785,0,
747,493,1786,0,
743,829,1787,0,
683,687,1788,0,
681,768,1789,0,
787,755,1790,0,
512,709,1791,0,
810,775,1792,0,
495,711,1793,0,
788,824,1794,0,
582,765,1795,0,
683,770,1796,0,
870,859,1797,0,
856,496,1798,0,
839,717,1799,0,
872,604,1800,0,
596,716,1801,0,
402,735,1802,0,
824,612,1803,0,
690,455,1804,0,
732,819,1805,0,
680,774,1806,0,
584,694,1807,0,
713,491,1808,0,
550,756,1809,0,
723,455,1810,0,
843,791,1811,0,
876,848,1812,0,
762,718,1813,0,
719,598,1814,0,
792,493,1815,0,
793,796,1816,0,
728,787,1817,0,
858,688,1818,0,
803,590,1819,0,
629,737,1820,0,
736,533,1821,0,
744,529,1822,0,
743,520,1823,0,
946,0,1824,2,
729,456,1825,0,
855,768,1826,0,
569,693,1827,0,
821,785,1828,0,
638,807,1829,0,
591,684,1830,0,
947,608,1831,0,
859,770,1832,0,
833,490,1833,0,
489,707,1834,0,
117,946,1835,0,
779,813,1836,0,
539,739,1837,0,
482,801,1838,0,
948,0,1839,2,
825,750,1840,0,
724,730,1841,0,
949,0,1842,2,
123,949,1843,0,
627,818,1844,0,
493,811,1845,0,
734,684,1846,0,
761,476,1847,0,
782,794,1848,0,
848,643,1849,0,
823,849,1850,0,
952,816,1851,0,
736,700,1852,0,
759,801,1853,0,
490,807,1854,0,
764,757,1855,0,
826,557,1856,0,
719,700,1857,0,
754,839,1858,0,
722,691,1859,0,
614,752,1860,0,
803,496,1861,0,
705,815,1862,0,
788,482,1863,0,
577,717,1864,0,
687,860,1865,0,
577,795,1866,0,
782,820,1867,0,
537,692,1868,0,
469,695,1869,0,
728,874,1870,0,
681,883,1871,0,
496,687,1872,0,
498,692,1873,0,
778,690,1874,0,
638,686,1875,0,
753,829,1876,0,
885,954,1877,0,
550,702,1878,0,
587,760,1879,0,
886,818,1880,0,
729,703,1881,0,
715,489,1882,0,
957,624,1883,0,
633,861,1884,0,
837,495,1885,0,
793,699,1886,0,
701,859,1887,0,
405,746,1888,0,
749,549,1889,0,
838,769,1890,0,
518,805,1891,0,
690,757,1892,0,
497,814,1893,0,
884,861,1894,0,
707,792,1895,0,
890,637,1896,0,
750,713,1897,0,
843,849,1898,0,
586,768,1899,0,
958,496,1900,0,
786,801,1901,0,
763,570,1902,0,
540,682,1903,0,
868,683,1904,0,
720,861,1905,0,
785,550,1906,0,
727,751,1907,0,
833,683,1908,0,
716,739,1909,0,
490,698,1910,0,
700,689,1911,0,
788,815,1912,0,
960,807,1913,0,
830,607,1914,0,
823,750,1915,0,
698,699,1916,0,
772,704,1917,0,
753,491,1918,0,
726,700,1919,0,
733,548,1920,0,
582,796,1921,0,
482,696,1922,0,
762,612,1923,0,
715,593,1924,0,
782,491,1925,0,
402,846,1926,0,
884,890,1927,0,
737,870,1928,0,
607,688,1929,0,
720,850,1930,0,
962,400,1931,0,
729,548,1932,0,
490,697,1933,0,
846,608,1934,0,
582,700,1935,0,
787,767,1936,0,
965,456,1937,0,
890,858,1938,0,
739,811,1939,0,
707,781,1940,0,
833,687,1941,0,
856,715,1942,0,
482,769,1943,0,
702,456,1944,0,
753,695,1945,0,
557,842,1946,0,
680,818,1947,0,
843,635,1948,0,
825,598,1949,0,
721,538,1950,0,
548,716,1951,0,
520,795,1952,0,
793,608,1953,0,
756,850,1954,0,
837,698,1955,0,
640,858,1956,0,
830,604,1957,0,
754,809,1958,0,
755,841,1959,0,
718,699,1960,0,
752,770,1961,0,
830,833,1962,0,
787,730,1963,0,
850,481,1964,0,
724,608,1965,0,
718,574,1966,0,
786,602,1967,0,
492,811,1968,0,
888,608,1969,0,
863,874,1970,0,
638,781,1971,0,
777,815,1972,0,
768,706,1973,0,
772,815,1974,0,
718,697,1975,0,
724,582,1976,0,
590,809,1977,0,
735,841,1978,0,
737,816,1979,0,
970,820,1980,0,
489,692,1981,0,
722,774,1982,0,
821,705,1983,0,
721,732,1984,0,
714,872,1985,0,
493,760,1986,0,
826,570,1987,0,
743,738,1988,0,
872,757,1989,0,
848,843,1990,0,
845,569,1991,0,
803,777,1992,0,
742,704,1993,0,
598,842,1994,0,
607,807,1995,0,
761,461,1996,0,
518,739,1997,0,
624,820,1998,0,
973,845,1999,0,
727,498,2000,0,
794,738,2001,0,
861,798,2002,0,
591,805,2003,0,
827,756,2004,0,
691,765,2005,0,
544,694,2006,0,
975,663,2007,0,
685,738,2008,0,
932,387,2009,0,
724,701,2010,0,
729,476,2011,0,
976,662,2012,0,
827,704,2013,0,
495,690,2014,0,
629,849,2015,0,
779,829,2016,0,
725,835,2017,0,
739,797,2018,0,
780,476,2019,0,
578,839,2020,0,
769,757,2021,0,
826,794,2022,0,
787,708,2023,0,
728,587,2024,0,
500,807,2025,0,
753,765,2026,0,
755,814,2027,0,
633,850,2028,0,
763,829,2029,0,
709,768,2030,0,
638,855,2031,0,
848,870,2032,0,
723,696,2033,0,
402,856,2034,0,
781,798,2035,0,
584,745,2036,0,
860,467,2037,0,
584,680,2038,0,
744,695,2039,0,
498,759,2040,0,
516,732,2041,0,
806,782,2042,0,
520,749,2043,0,
755,476,2044,0,
520,819,2045,0,
807,809,2046,0,
845,855,2047,0,
796,550,2048,0,
978,979,2049,0,
627,812,2050,0,
981,482,2051,0,
827,682,2052,0,
803,845,2053,0,
717,544,2054,0,
890,633,2055,0,
730,826,2056,0,
742,778,2057,0,
814,684,2058,0,
827,798,2059,0,
827,824,2060,0,
578,813,2061,0,
764,689,2062,0,
714,792,2063,0,
758,629,2064,0,
737,710,2065,0,
830,540,2066,0,
783,781,2067,0,
500,834,2068,0,
775,779,2069,0,
625,845,2070,0,
731,641,2071,0,
726,744,2072,0,
801,751,2073,0,
721,756,2074,0,
727,744,2075,0,
578,685,2076,0,
949,671,2077,0,
803,593,2078,0,
797,777,2079,0,
518,708,2080,0,
608,757,2081,0,
516,767,2082,0,
782,584,2083,0,
743,581,2084,0,
586,719,2085,0,
787,405,2086,0,
586,827,2087,0,
722,690,2088,0,
888,890,2089,0,
830,529,2090,0,
886,870,2091,0,
512,699,2092,0,
729,529,2093,0,
806,614,2094,0,
550,797,2095,0,
596,739,2096,0,
946,672,2097,0,
614,834,2098,0,
758,798,2099,0,
500,845,2100,0,
897,675,2101,0,
577,707,2102,0,
806,835,2103,0,
624,849,2104,0,
789,493,2105,0,
629,740,2106,0,
735,812,2107,0,
783,811,2108,0,
582,752,2109,0,
838,544,2110,0,
892,676,2111,0,
750,774,2112,0,
639,849,2113,0,
604,687,2114,0,
767,745,2115,0,
729,819,2116,0,
778,499,2117,0,
673,906,2118,0,
995,390,2119,0,
390,995,2120,1,
823,811,2121,0,
577,704,2122,0,
754,801,2123,0,
602,834,2124,0,
725,549,2125,0,
1000,686,2126,0,
1001,687,2127,0,
999,689,2128,0,
998,688,2129,0,
1004,1005,2130,0,
1036,1032,2131,0,
1015,691,2132,0,
1034,1028,2133,0,
1024,584,2134,0,
1002,1003,2135,0,
1027,567,2136,0,
1038,586,2137,0,
1008,1010,2138,0,
1026,1012,2139,0,
1009,766,2140,0,
1007,786,2141,0,
1011,780,2142,0,
1029,782,2143,0,
1013,1014,2144,0,
1016,1017,2145,0,
1031,765,2146,0,
1035,735,2147,0,
1023,1022,2148,0,
1020,574,2149,0,
1019,688,2150,0,
1021,759,2151,0,
1018,569,2152,0,
1033,581,2153,0,
1025,544,2154,0,
1037,490,2155,0,
1006,779,2156,0,
1030,769,2157,0,
1039,692,2158,0,
1056,815,2159,0,
1058,828,2160,0,
1065,518,2161,0,
1077,1064,2162,0,
1063,764,2163,0,
1052,802,2164,0,
1060,1059,2165,0,
1073,770,2166,0,
1050,1055,2167,0,
1069,602,2168,0,
1041,1051,2169,0,
1087,793,2170,0,
1054,604,2171,0,
1084,1085,2172,0,
1070,746,2173,0,
1076,1072,2174,0,
1042,1040,2175,0,
1080,729,2176,0,
1083,721,2177,0,
1068,798,2178,0,
1046,1066,2179,0,
1045,717,2180,0,
1075,1044,2181,0,
1074,806,2182,0,
1047,1048,2183,0,
1078,1079,2184,0,
1082,1081,2185,0,
1049,795,2186,0,
1043,533,2187,0,
1093,539,2188,0,
1106,839,2189,0,
1092,607,2190,0,
1095,757,2191,0,
1123,1096,2192,0,
1102,803,2193,0,
1118,1127,2194,0,
1129,516,2195,0,
1101,520,2196,0,
1089,1121,2197,0,
1111,1114,2198,0,
1097,834,2199,0,
1128,686,2200,0,
1116,1108,2201,0,
1100,602,2202,0,
1117,835,2203,0,
1124,1122,2204,0,
1088,727,2205,0,
1120,1109,2206,0,
1113,1112,2207,0,
1135,823,2208,0,
1136,844,2209,0,
1134,612,2210,0,
1138,758,2211,0,
1139,467,2212,0,
1132,582,2213,0,
1134,770,2214,0,
1146,1159,2215,0,
1149,1156,2216,0,
1155,1141,2217,0,
1160,780,2218,0,
1145,691,2219,0,
1143,842,2220,0,
1151,727,2221,0,
1157,590,2222,0,
1144,1142,2223,0,
1021,711,2224,0,
853,1152,2225,0,
1153,1154,2226,0,
1148,1150,2227,0,
1176,1179,2228,0,
1172,1194,2229,0,
1187,1212,2230,0,
1196,635,2231,0,
1161,823,2232,0,
1168,843,2233,0,
1186,692,2234,0,
1192,1190,2235,0,
1173,1166,2236,0,
1177,865,2237,0,
1221,473,2238,0,
1222,1215,2239,0,
1217,1198,2240,0,
1213,1207,2241,0,
1219,775,2242,0,
1206,868,2243,0,
1205,788,2244,0,
1203,1201,2245,0,
1197,467,2246,0,
1209,869,2247,0,
1210,1216,2248,0,
1191,1189,2249,0,
1170,597,2250,0,
1174,1171,2251,0,
866,1183,2252,0,
1188,870,2253,0,
1169,765,2254,0,
1211,732,2255,0,
1181,1182,2256,0,
1167,495,2257,0,
1178,714,2258,0,
1180,1175,2259,0,
1184,1185,2260,0,
1162,1218,2261,0,
1195,632,2262,0,
1220,702,2263,0,
1214,861,2264,0,
1104,1121,2265,0,
864,1163,2266,0,
1199,577,2267,0,
1165,1164,2268,0,
1231,872,2269,0,
1224,772,2270,0,
873,1140,2271,0,
1234,1233,2272,0,
1230,596,2273,0,
1237,850,2274,0,
1239,1238,2275,0,
1223,1198,2276,0,
1064,874,2277,0,
1228,1229,2278,0,
1236,706,2279,0,
1225,638,2280,0,
1250,820,2281,0,
1246,1242,2282,0,
1247,878,2283,0,
1243,1244,2284,0,
1007,860,2285,0,
1254,1255,2286,0,
1257,1258,2287,0,
1271,858,2288,0,
879,1121,2289,0,
1266,738,2290,0,
1268,870,2291,0,
1267,1269,2292,0,
1272,787,2293,0,
1260,880,2294,0,
1270,637,2295,0,
1264,849,2296,0,
1259,701,2297,0,
1263,818,2298,0,
1282,883,2299,0,
1288,686,2300,0,
1006,1279,2301,0,
1284,1285,2302,0,
1283,608,2303,0,
1274,613,2304,0,
1287,738,2305,0,
1276,1280,2306,0,
1277,1278,2307,0,
1286,1273,2308,0,
1275,861,2309,0,
1305,614,2310,0,
1301,1303,2311,0,
1298,859,2312,0,
1089,885,2313,0,
1307,1306,2314,0,
1299,557,2315,0,
1300,641,2316,0,
1304,402,2317,0,
1296,569,2318,0,
1293,1294,2319,0,
1297,713,2320,0,
1290,1291,2321,0,
889,1323,2322,0,
1317,1318,2323,0,
1327,602,2324,0,
1311,783,2325,0,
1028,1328,2326,0,
1329,755,2327,0,
1326,467,2328,0,
1316,632,2329,0,
1331,598,2330,0,
1330,1325,2331,0,
1324,888,2332,0,
1322,640,2333,0,
1310,841,2334,0,
1308,1312,2335,0,
1217,740,2336,0,
1336,849,2337,0,
1344,455,2338,0,
1224,627,2339,0,
1333,1332,2340,0,
1351,711,2341,0,
1241,726,2342,0,
1350,639,2343,0,
1335,1044,2344,0,
1355,828,2345,0,
1338,1339,2346,0,
1341,607,2347,0,
1342,1340,2348,0,
1199,748,2349,0,
1353,1349,2350,0,
1354,1352,2351,0,
1347,1346,2352,0,
891,1348,2353,0,
1367,848,2354,0,
1360,855,2355,0,
1362,1361,2356,0,
1356,863,2357,0,
1150,694,2358,0,
1090,1140,2359,0,
1090,716,2360,0,
1375,496,2361,0,
1378,704,2362,0,
1374,787,2363,0,
1371,1372,2364,0,
898,1368,2365,0,
1148,813,2366,0,
1377,612,2367,0,
1314,689,2368,0,
1099,852,2369,0,
1007,1279,2370,0,
1396,849,2371,0,
1404,1403,2372,0,
1387,900,2373,0,
1395,0,2374,2,
1394,633,2375,0,
1393,888,2376,0,
1006,791,2377,0,
1402,548,2378,0,
1384,1385,2379,0,
1380,1382,2380,0,
1400,726,2381,0,
1401,816,2382,0,
1397,1399,2383,0,
1390,604,2384,0,
1411,1410,2385,0,
1407,1408,2386,0,
1416,582,2387,0,
1417,1415,2388,0,
1405,689,2389,0,
1412,1096,2390,0,
1015,474,2391,0,
1430,701,2392,0,
1422,1171,2393,0,
1428,906,2394,0,
1419,874,2395,0,
1432,876,2396,0,
1429,899,2397,0,
1420,1421,2398,0,
1425,500,2399,0,
1433,0,2400,2,
1423,1424,2401,0,
1434,870,2402,0,
1431,700,2403,0,
1446,787,2404,0,
1442,639,2405,0,
1440,1441,2406,0,
1443,872,2407,0,
1436,473,2408,0,
1444,1445,2409,0,
1280,1437,2410,0,
1438,689,2411,0,
1451,746,2412,0,
1224,733,2413,0,
1452,908,2414,0,
1449,876,2415,0,
1456,1458,2416,0,
1450,402,2417,0,
1455,870,2418,0,
1453,1454,2419,0,
1448,778,2420,0,
1460,564,2421,0,
1459,867,2422,0,
1466,797,2423,0,
1465,883,2424,0,
1462,1463,2425,0,
1468,715,2426,0,
1412,820,2427,0,
1467,492,2428,0,
1472,624,2429,0,
1476,569,2430,0,
1475,1474,2431,0,
1471,858,2432,0,
1484,625,2433,0,
1302,1147,2434,0,
1481,1478,2435,0,
1479,1480,2436,0,
1486,639,2437,0,
1477,1487,2438,0,
1485,1483,2439,0,
905,1490,2440,0,
1492,591,2441,0,
1371,537,2442,0,
1086,708,2443,0,
1493,701,2444,0,
1498,861,2445,0,
1495,1491,2446,0,
910,1489,2447,0,
1497,1365,2448,0,
1496,598,2449,0,
911,1488,2450,0,
1494,733,2451,0,
1505,913,2452,0,
914,1507,2453,0,
1510,625,2454,0,
1369,491,2455,0,
1500,640,2456,0,
1511,731,2457,0,
1504,643,2458,0,
1508,805,2459,0,
915,1512,2460,0,
1515,874,2461,0,
1519,1517,2462,0,
1522,639,2463,0,
1514,768,2464,0,
1520,816,2465,0,
1521,855,2466,0,
1187,844,2467,0,
1530,638,2468,0,
1531,643,2469,0,
1219,1108,2470,0,
1523,1031,2471,0,
1529,499,2472,0,
1491,1171,2473,0,
1528,874,2474,0,
1527,695,2475,0,
1015,1096,2476,0,
1099,1279,2477,0,
1524,624,2478,0,
1525,539,2479,0,
1198,1319,2480,0,
916,1526,2481,0,
1541,540,2482,0,
1546,1545,2483,0,
1532,1543,2484,0,
1535,1533,2485,0,
1534,632,2486,0,
1538,867,2487,0,
1539,1540,2488,0,
1536,1537,2489,0,
1556,838,2490,0,
1555,876,2491,0,
1548,918,2492,0,
1553,1554,2493,0,
1549,867,2494,0,
1550,1551,2495,0,
1561,1319,2496,0,
1559,1558,2497,0,
1159,1212,2498,0,
1369,1044,2499,0,
1562,1359,2500,0,
1566,548,2501,0,
1567,921,2502,0,
1568,1520,2503,0,
1330,784,2504,0,
1565,893,2505,0,
922,1571,2506,0,
1576,1577,2507,0,
1575,496,2508,0,
1573,1574,2509,0,
1150,1241,2510,0,
1578,743,2511,0,
1584,402,2512,0,
1582,1585,2513,0,
1581,533,2514,0,
1579,1580,2515,0,
1588,613,2516,0,
1589,778,2517,0,
1587,597,2518,0,
1586,455,2519,0,
1600,725,2520,0,
1599,641,2521,0,
1596,1597,2522,0,
1590,1591,2523,0,
1594,557,2524,0,
1601,884,2525,0,
1603,1604,2526,0,
1602,863,2527,0,
1605,899,2528,0,
1359,473,2529,0,
1607,846,2530,0,
1609,848,2531,0,
1611,1610,2532,0,
1614,456,2533,0,
1335,685,2534,0,
1491,1618,2535,0,
1617,550,2536,0,
1615,791,2537,0,
1613,710,2538,0,
1612,867,2539,0,
1242,1622,2540,0,
1623,893,2541,0,
1625,930,2542,0,
1134,684,2543,0,
1627,825,2544,0,
1628,490,2545,0,
1502,1560,2546,0,
1137,461,2547,0,
1632,1633,2548,0,
1064,1562,2549,0,
1329,810,2550,0,
1205,1174,2551,0,
1560,722,2552,0,
1630,825,2553,0,
1638,687,2554,0,
1640,1637,2555,0,
1639,787,2556,0,
1636,1635,2557,0,
1634,586,2558,0,
1125,775,2559,0,
1646,890,2560,0,
1648,640,2561,0,
1645,848,2562,0,
1647,518,2563,0,
1649,728,2564,0,
1650,715,2565,0,
1011,844,2566,0,
1502,717,2567,0,
1655,1656,2568,0,
1651,495,2569,0,
1119,829,2570,0,
1121,1470,2571,0,
1653,0,2572,2,
1657,934,2573,0,
1659,731,2574,0,
1667,855,2575,0,
1669,602,2576,0,
1563,587,2577,0,
1658,1086,2578,0,
1666,550,2579,0,
1664,860,2580,0,
1662,1661,2581,0,
1668,858,2582,0,
1660,728,2583,0,
1675,1672,2584,0,
1671,1670,2585,0,
1123,520,2586,0,
1673,632,2587,0,
1678,716,2588,0,
1174,716,2589,0,
1683,720,2590,0,
1682,843,2591,0,
1461,567,2592,0,
1687,1685,2593,0,
1689,1688,2594,0,
1684,740,2595,0,
1221,870,2596,0,
1693,1694,2597,0,
1695,868,2598,0,
1697,1696,2599,0,
1261,1692,2600,0,
1699,937,2601,0,
1470,1026,2602,0,
1700,1698,2603,0,
1377,775,2604,0,
1706,597,2605,0,
1702,550,2606,0,
1703,799,2607,0,
1704,557,2608,0,
1715,819,2609,0,
1310,1069,2610,0,
1371,1557,2611,0,
1719,1714,2612,0,
1718,860,2613,0,
1717,1716,2614,0,
1710,512,2615,0,
1713,883,2616,0,
1709,874,2617,0,
1711,876,2618,0,
1725,858,2619,0,
1722,1723,2620,0,
1721,820,2621,0,
1727,815,2622,0,
1729,1730,2623,0,
1724,567,2624,0,
1728,827,2625,0,
1516,1086,2626,0,
1327,564,2627,0,
1731,812,2628,0,
1737,821,2629,0,
1143,744,2630,0,
1412,692,2631,0,
1207,841,2632,0,
1736,632,2633,0,
1734,738,2634,0,
1735,1370,2635,0,
1714,733,2636,0,
1744,788,2637,0,
1738,868,2638,0,
1746,942,2639,0,
941,1743,2640,0,
1742,689,2641,0,
1745,868,2642,0,
1760,1759,2643,0,
1753,943,2644,0,
1758,641,2645,0,
1136,598,2646,0,
1754,872,2647,0,
1755,761,2648,0,
1216,684,2649,0,
1761,1208,2650,0,
1021,694,2651,0,
1768,745,2652,0,
1767,400,2653,0,
1763,1771,2654,0,
1770,540,2655,0,
1765,792,2656,0,
1773,883,2657,0,
1765,1460,2658,0,
1592,822,2659,0,
1774,1776,2660,0,
1778,772,2661,0,
1781,760,2662,0,
1780,638,2663,0,
1557,581,2664,0,
1470,1373,2665,0,
1783,1782,2666,0,
1302,1272,2667,0,
1785,874,2668,0,
1787,796,2669,0,
1207,873,2670,0,
1344,703,2671,0,
1791,1789,2672,0,
1461,1618,2673,0,
1792,710,2674,0,
1793,817,2675,0,
1150,581,2676,0,
1797,893,2677,0,
1794,690,2678,0,
944,1795,2679,0,
1796,888,2680,0,
1279,727,2681,0,
1801,1800,2682,0,
1803,1804,2683,0,
1805,874,2684,0,
1241,1808,2685,0,
1762,1615,2686,0,
1807,1809,2687,0,
1806,608,2688,0,
1810,797,2689,0,
1814,720,2690,0,
1816,945,2691,0,
1557,1235,2692,0,
1818,643,2693,0,
1817,828,2694,0,
1824,159,2695,0,
1820,624,2696,0,
1821,1819,2697,0,
1823,1822,2698,0,
1825,1828,2699,0,
1827,1826,2700,0,
1830,1829,2701,0,
1832,870,2702,0,
1835,0,2703,2,
1388,157,2704,0,
1834,1833,2705,0,
1328,826,2706,0,
1837,597,2707,0,
1839,162,2708,0,
1840,827,2709,0,
1842,148,2710,0,
1843,0,2711,2,
1363,158,2712,0,
1845,539,2713,0,
1846,855,2714,0,
1104,1295,2715,0,
1844,870,2716,0,
928,1777,2717,0,
1847,697,2718,0,
1848,1850,2719,0,
1852,848,2720,0,
1851,1849,2721,0,
1853,777,2722,0,
1854,884,2723,0,
1261,1160,2724,0,
1856,1855,2725,0,
1217,1811,2726,0,
1858,705,2727,0,
1857,624,2728,0,
955,1859,2729,0,
1867,1865,2730,0,
1114,1425,2731,0,
1860,731,2732,0,
1861,706,2733,0,
1863,956,2734,0,
1864,1862,2735,0,
1256,1838,2736,0,
1615,694,2737,0,
1870,629,2738,0,
1868,1869,2739,0,
1873,785,2740,0,
1872,643,2741,0,
1879,798,2742,0,
1876,1875,2743,0,
1878,1880,2744,0,
1561,1328,2745,0,
1199,1618,2746,0,
1882,863,2747,0,
1523,712,2748,0,
1461,1051,2749,0,
1881,718,2750,0,
1890,802,2751,0,
1889,776,2752,0,
1888,640,2753,0,
1887,843,2754,0,
1886,1884,2755,0,
1892,959,2756,0,
1895,782,2757,0,
1898,1896,2758,0,
1897,1899,2759,0,
1901,1902,2760,0,
1905,872,2761,0,
1910,574,2762,0,
1907,1912,2763,0,
1908,1906,2764,0,
1911,632,2765,0,
1909,1904,2766,0,
1335,881,2767,0,
1658,1295,2768,0,
1917,476,2769,0,
1737,797,2770,0,
1914,1915,2771,0,
1916,747,2772,0,
1922,737,2773,0,
1146,1069,2774,0,
1921,756,2775,0,
1918,1919,2776,0,
1925,461,2777,0,
1924,687,2778,0,
1923,496,2779,0,
1926,1927,2780,0,
1929,1930,2781,0,
1931,964,2782,0,
1933,1932,2783,0,
1935,1934,2784,0,
1936,613,2785,0,
1937,1939,2786,0,
1940,814,2787,0,
1941,863,2788,0,
1672,627,2789,0,
1945,1946,2790,0,
1932,1944,2791,0,
1569,0,2792,2,
1943,1942,2793,0,
1224,727,2794,0,
1692,775,2795,0,
1618,1808,2796,0,
1947,876,2797,0,
1948,641,2798,0,
1951,826,2799,0,
1950,1949,2800,0,
1952,794,2801,0,
1467,722,2802,0,
1957,1956,2803,0,
1954,875,2804,0,
1327,578,2805,0,
1955,1566,2806,0,
1958,740,2807,0,
1959,708,2808,0,
967,1961,2809,0,
1963,1962,2810,0,
1560,760,2811,0,
1967,812,2812,0,
1964,637,2813,0,
1968,745,2814,0,
1966,1965,2815,0,
1031,784,2816,0,
1971,1970,2817,0,
969,1545,2818,0,
1491,1369,2819,0,
1490,779,2820,0,
1973,682,2821,0,
1972,574,2822,0,
1983,799,2823,0,
1979,693,2824,0,
1982,828,2825,0,
1977,402,2826,0,
1974,810,2827,0,
1975,747,2828,0,
1981,637,2829,0,
1986,690,2830,0,
1984,1985,2831,0,
1629,0,2832,2,
1988,971,2833,0,
1071,627,2834,0,
1436,1136,2835,0,
1256,780,2836,0,
1990,643,2837,0,
1992,1991,2838,0,
1995,1998,2839,0,
1993,1994,2840,0,
1961,625,2841,0,
1171,1311,2842,0,
2001,2002,2843,0,
2003,587,2844,0,
2000,702,2845,0,
2008,845,2846,0,
2009,674,2847,0,
1372,578,2848,0,
2011,2010,2849,0,
2125,997,2850,0,
2119,169,2851,0,
1523,1158,2852,0,
2015,888,2853,0,
2016,2014,2854,0,
2017,569,2855,0,
2022,2021,2856,0,
2020,2023,2857,0,
1163,899,2858,0,
2019,2018,2859,0,
1187,1279,2860,0,
1777,765,2861,0,
2026,2025,2862,0,
2031,2032,2863,0,
2029,783,2864,0,
2035,597,2865,0,
2034,883,2866,0,
2036,2028,2867,0,
2038,2037,2868,0,
2040,730,2869,0,
2043,739,2870,0,
2041,937,2871,0,
980,2047,2872,0,
2045,2046,2873,0,
1516,1311,2874,0,
1119,1377,2875,0,
1422,1272,2876,0,
866,1028,2877,0,
2051,2052,2878,0,
2057,792,2879,0,
2056,2055,2880,0,
2054,782,2881,0,
2053,883,2882,0,
1071,765,2883,0,
2059,982,2884,0,
2064,884,2885,0,
2063,641,2886,0,
2060,899,2887,0,
2065,768,2888,0,
2068,2071,2889,0,
2067,2066,2890,0,
1654,708,2891,0,
2073,748,2892,0,
2072,884,2893,0,
2074,984,2894,0,
2076,986,2895,0,
985,1281,2896,0,
2077,987,2897,0,
2078,757,2898,0,
2080,777,2899,0,
2082,2081,2900,0,
1426,1212,2901,0,
1765,1372,2902,0,
2084,686,2903,0,
2089,2085,2904,0,
2086,2087,2905,0,
2091,872,2906,0,
2092,681,2907,0,
2094,574,2908,0,
2095,828,2909,0,
1171,846,2910,0,
2097,990,2911,0,
2100,849,2912,0,
2099,701,2913,0,
988,1182,2914,0,
2098,989,2915,0,
2096,798,2916,0,
2101,991,2917,0,
2102,548,2918,0,
2103,2104,2919,0,
1422,813,2920,0,
2108,2109,2921,0,
2106,876,2922,0,
1015,1094,2923,0,
2110,785,2924,0,
2111,992,2925,0,
1123,1386,2926,0,
2112,793,2927,0,
2117,856,2928,0,
2114,2113,2929,0,
1692,818,2930,0,
1140,1328,2931,0,
1123,1883,2932,0,
2123,859,2933,0,
169,2119,2934,1,
2120,0,2935,2,
2122,2121,2936,0,
2085,689,2937,0,
2126,2128,2938,0,
2129,2127,2939,0,
2144,2140,2940,0,
2154,548,2941,0,
2139,2135,2942,0,
2158,822,2943,0,
2155,1067,2944,0,
2146,1062,2945,0,
2141,818,2946,0,
1071,2143,2947,0,
2153,550,2948,0,
2138,2145,2949,0,
2157,577,2950,0,
2142,578,2951,0,
2156,824,2952,0,
2130,2134,2953,0,
2131,1057,2954,0,
2132,739,2955,0,
2136,591,2956,0,
2149,2152,2957,0,
2150,1086,2958,0,
2151,592,2959,0,
2147,1061,2960,0,
2133,2137,2961,0,
2148,1053,2962,0,
2170,1098,2963,0,
2177,1115,2964,0,
1104,2183,2965,0,
2186,749,2966,0,
2180,1110,2967,0,
2178,1125,2968,0,
2173,1099,2969,0,
1119,2163,2970,0,
2181,2179,2971,0,
2168,1103,2972,0,
2182,1123,2973,0,
2130,2166,2974,0,
1090,2172,2975,0,
2167,2161,2976,0,
2164,2171,2977,0,
2187,1126,2978,0,
2162,2184,2979,0,
2159,2175,2980,0,
2165,2160,2981,0,
2185,2176,2982,0,
2198,2200,2983,0,
2193,498,2984,0,
2191,1137,2985,0,
2202,707,2986,0,
2194,2195,2987,0,
2188,2190,2988,0,
2196,2205,2989,0,
2204,2206,2990,0,
2207,2201,2991,0,
2212,578,2992,0,
2208,548,2993,0,
2209,581,2994,0,
2213,1147,2995,0,
2219,1200,2996,0,
2222,1208,2997,0,
2226,2223,2998,0,
2221,2225,2999,0,
2218,835,3000,0,
2216,2217,3001,0,
2214,682,3002,0,
2215,2220,3003,0,
2260,2261,3004,0,
2249,2252,3005,0,
2254,498,3006,0,
1235,2246,3007,0,
2267,2265,3008,0,
2213,2231,3009,0,
2250,2251,3010,0,
2256,2259,3011,0,
2257,875,3012,0,
2240,755,3013,0,
2263,2262,3014,0,
2255,608,3015,0,
2237,2228,3016,0,
2232,2258,3017,0,
2236,2229,3018,0,
2243,834,3019,0,
2248,2247,3020,0,
2242,683,3021,0,
1232,2244,3022,0,
1227,2239,3023,0,
2241,2266,3024,0,
2238,1226,3025,0,
2235,2233,3026,0,
2234,2230,3027,0,
2280,1241,3028,0,
2271,2272,3029,0,
2270,877,3030,0,
2277,846,3031,0,
1251,2276,3032,0,
2269,689,3033,0,
2273,1245,3034,0,
2279,1256,3035,0,
2274,1249,3036,0,
2282,2283,3037,0,
2285,1261,3038,0,
2281,1265,3039,0,
2292,2288,3040,0,
2293,843,3041,0,
2297,1281,3042,0,
2294,2296,3043,0,
2191,2295,3044,0,
2290,2157,3045,0,
2289,2287,3046,0,
2298,824,3047,0,
1146,2291,3048,0,
2305,1302,3049,0,
2307,2306,3050,0,
1292,2303,3051,0,
2301,2302,3052,0,
2300,1289,3053,0,
2309,1166,3054,0,
2308,2299,3055,0,
2319,2316,3056,0,
2315,1320,3057,0,
2320,1086,3058,0,
2166,846,3059,0,
2313,1049,3060,0,
2311,2312,3061,0,
2310,1309,3062,0,
2318,761,3063,0,
1100,2254,3064,0,
2322,2323,3065,0,
2326,2324,3066,0,
2325,1334,3067,0,
2333,1343,3068,0,
2334,1345,3069,0,
2328,2329,3070,0,
2327,1337,3071,0,
2351,2350,3072,0,
2348,1366,3073,0,
2337,1358,3074,0,
2339,710,3075,0,
2347,1365,3076,0,
2266,1359,3077,0,
2341,2343,3078,0,
2342,856,3079,0,
2338,1357,3080,0,
2345,1364,3081,0,
2353,2352,3082,0,
2349,788,3083,0,
2344,602,3084,0,
2357,1369,3085,0,
2243,2354,3086,0,
1370,2150,3087,0,
2358,2359,3088,0,
2193,707,3089,0,
2258,741,3090,0,
2367,1392,3091,0,
2364,1389,3092,0,
2361,1381,3093,0,
2362,1383,3094,0,
2360,782,3095,0,
1386,2365,3096,0,
2366,1391,3097,0,
2377,1409,3098,0,
1414,2381,3099,0,
2372,2371,3100,0,
2379,839,3101,0,
2378,2382,3102,0,
2375,721,3103,0,
2385,904,3104,0,
2390,905,3105,0,
2389,748,3106,0,
2387,1426,3107,0,
2391,807,3108,0,
1435,2392,3109,0,
2212,537,3110,0,
2393,2397,3111,0,
2396,578,3112,0,
2402,835,3113,0,
2179,1219,3114,0,
2401,1137,3115,0,
866,2395,3116,0,
2394,0,3117,2,
2404,1447,3118,0,
2408,1457,3119,0,
2409,2405,3120,0,
2410,2411,3121,0,
1057,2137,3122,0,
2419,2418,3123,0,
2394,106,3124,0,
1386,2357,3125,0,
2415,813,3126,0,
2413,1138,3127,0,
2420,2412,3128,0,
2421,1464,3129,0,
2403,754,3130,0,
2427,640,3131,0,
2426,1125,3132,0,
2163,754,3133,0,
2395,781,3134,0,
2425,1470,3135,0,
2423,1473,3136,0,
800,2429,3137,0,
2430,473,3138,0,
2402,2189,3139,0,
2432,498,3140,0,
2433,829,3141,0,
1104,2437,3142,0,
2435,2436,3143,0,
2438,2439,3144,0,
2443,1060,3145,0,
2440,1499,3146,0,
2451,1513,3147,0,
2449,1509,3148,0,
2442,1503,3149,0,
2444,1506,3150,0,
2447,2450,3151,0,
2460,1518,3152,0,
2455,467,3153,0,
2172,2456,3154,0,
2457,2454,3155,0,
2467,1099,3156,0,
2461,2465,3157,0,
2464,2150,3158,0,
2463,703,3159,0,
2466,904,3160,0,
2159,751,3161,0,
2468,2469,3162,0,
2481,2478,3163,0,
2475,2474,3164,0,
2472,1542,3165,0,
2479,1544,3166,0,
2471,498,3167,0,
2470,881,3168,0,
2482,919,3169,0,
2483,0,3170,2,
2485,2486,3171,0,
2492,2493,3172,0,
2379,791,3173,0,
2490,2491,3174,0,
2494,833,3175,0,
2495,1560,3176,0,
2483,111,3177,0,
2498,2499,3178,0,
2496,2365,3179,0,
2503,2502,3180,0,
2504,785,3181,0,
2501,1572,3182,0,
1302,2461,3183,0,
2515,2465,3184,0,
1166,2512,3185,0,
2511,516,3186,0,
2401,1216,3187,0,
2510,2437,3188,0,
2518,1598,3189,0,
2516,1593,3190,0,
2517,1595,3191,0,
2524,1606,3192,0,
2520,2521,3193,0,
2178,814,3194,0,
2526,2527,3195,0,
2528,818,3196,0,
2529,812,3197,0,
2532,2531,3198,0,
2317,1199,3199,0,
2535,2534,3200,0,
2533,1624,3201,0,
2537,1621,3202,0,
2536,1620,3203,0,
2538,2539,3204,0,
2545,1631,3205,0,
2541,564,3206,0,
2543,549,3207,0,
2550,931,3208,0,
2549,2547,3209,0,
2553,1641,3210,0,
2552,747,3211,0,
2559,744,3212,0,
2555,2554,3213,0,
2563,1652,3214,0,
904,2298,3215,0,
2564,933,3216,0,
2561,1386,3217,0,
2562,2320,3218,0,
2220,1654,3219,0,
1147,2565,3220,0,
2567,1665,3221,0,
2569,1663,3222,0,
2571,1406,3223,0,
2570,772,3224,0,
2583,936,3225,0,
2577,1677,3226,0,
2131,2305,3227,0,
2582,1680,3228,0,
2576,1679,3229,0,
2574,2580,3230,0,
2573,1674,3231,0,
2589,1691,3232,0,
2586,1686,3233,0,
2588,1690,3234,0,
2584,608,3235,0,
2592,886,3236,0,
2595,1701,3237,0,
2604,1707,3238,0,
2587,2221,3239,0,
2597,2598,3240,0,
2601,1561,3241,0,
2603,1330,3242,0,
2602,1705,3243,0,
2596,632,3244,0,
2319,1205,3245,0,
2608,1712,3246,0,
2607,2606,3247,0,
2615,2617,3248,0,
2611,1726,3249,0,
2614,2613,3250,0,
2173,1171,3251,0,
2609,1720,3252,0,
2621,1422,3253,0,
2625,703,3254,0,
2624,1733,3255,0,
2627,1732,3256,0,
2622,694,3257,0,
2623,1426,3258,0,
2635,2633,3259,0,
2631,794,3260,0,
2634,1747,3261,0,
2632,714,3262,0,
2628,2629,3263,0,
2630,1741,3264,0,
2637,1749,3265,0,
2636,1752,3266,0,
2642,1756,3267,0,
2641,1757,3268,0,
2646,884,3269,0,
2648,2647,3270,0,
2644,1762,3271,0,
2651,1769,3272,0,
2649,1764,3273,0,
2650,2291,3274,0,
2653,1772,3275,0,
2654,2655,3276,0,
1715,2512,3277,0,
2658,1775,3278,0,
1777,2189,3279,0,
2514,544,3280,0,
2661,1779,3281,0,
2662,2663,3282,0,
2664,1784,3283,0,
2239,476,3284,0,
2667,1786,3285,0,
2669,1788,3286,0,
2671,1790,3287,0,
2673,1053,3288,0,
2433,685,3289,0,
2675,1798,3290,0,
2678,2677,3291,0,
2679,2680,3292,0,
2676,1799,3293,0,
2681,640,3294,0,
822,2463,3295,0,
2685,1490,3296,0,
2684,1812,3297,0,
2686,1813,3298,0,
2689,2688,3299,0,
2687,759,3300,0,
2693,765,3301,0,
2695,0,3302,2,
2697,2696,3303,0,
2699,2700,3304,0,
2540,1672,3305,0,
2701,1325,3306,0,
873,2693,3307,0,
2713,723,3308,0,
2715,2714,3309,0,
2717,839,3310,0,
2716,1158,3311,0,
2269,684,3312,0,
2561,759,3313,0,
2435,2722,3314,0,
2309,797,3315,0,
2724,2725,3316,0,
2723,702,3317,0,
2727,2728,3318,0,
2735,2734,3319,0,
2732,1871,3320,0,
2729,2730,3321,0,
2731,2733,3322,0,
2737,779,3323,0,
2736,1874,3324,0,
2143,2739,3325,0,
2742,1883,3326,0,
2743,2312,3327,0,
2746,2745,3328,0,
2466,1578,3329,0,
2747,2368,3330,0,
2750,1891,3331,0,
2753,473,3332,0,
2754,1894,3333,0,
2599,1224,3334,0,
2743,1147,3335,0,
2336,1207,3336,0,
2752,2751,3337,0,
2759,2758,3338,0,
2757,1903,3339,0,
2763,2766,3340,0,
2764,2761,3341,0,
844,2429,3342,0,
1913,2765,3343,0,
2460,1563,3344,0,
2767,841,3345,0,
2770,2772,3346,0,
2769,1920,3347,0,
2775,1397,3348,0,
2774,2590,3349,0,
2747,2716,3350,0,
2777,1928,3351,0,
2779,2778,3352,0,
2136,1359,3353,0,
2426,544,3354,0,
2782,2781,3355,0,
2783,2784,3356,0,
2785,1938,3357,0,
2787,2788,3358,0,
2280,544,3359,0,
2250,1705,3360,0,
2394,673,3361,0,
2789,830,3362,0,
2796,2795,3363,0,
2794,607,3364,0,
2790,2793,3365,0,
1592,2463,3366,0,
2800,2798,3367,0,
2456,2430,3368,0,
2801,703,3369,0,
1069,2294,3370,0,
2802,966,3371,0,
2806,2804,3372,0,
2808,1960,3373,0,
2812,968,3374,0,
2814,1969,3375,0,
1295,2813,3376,0,
2816,788,3377,0,
2817,954,3378,0,
2725,2753,3379,0,
1980,2821,3380,0,
1137,2397,3381,0,
2231,2296,3382,0,
2820,481,3383,0,
2771,1198,3384,0,
2483,969,3385,0,
2828,1989,3386,0,
2825,2824,3387,0,
2830,972,3388,0,
2835,712,3389,0,
2603,800,3390,0,
2723,685,3391,0,
2834,455,3392,0,
2838,2837,3393,0,
2840,2841,3394,0,
1086,2739,3395,0,
2842,1159,3396,0,
2845,2005,3397,0,
2844,2004,3398,0,
2846,2354,3399,0,
2847,103,3400,0,
2851,0,3401,2,
66,2851,3402,0,
2852,2013,3403,0,
1516,2143,3404,0,
2854,2853,3405,0,
2713,2425,3406,0,
2859,2855,3407,0,
2856,2858,3408,0,
2304,1562,3409,0,
2396,685,3410,0,
1089,2810,3411,0,
2861,2033,3412,0,
2865,2866,3413,0,
2864,2039,3414,0,
2851,28,3415,0,
2645,627,3416,0,
2644,1033,3417,0,
2869,2042,3418,0,
2870,2048,3419,0,
2873,2049,3420,0,
2875,759,3421,0,
2375,2460,3422,0,
2591,1762,3423,0,
2148,839,3424,0,
2622,1219,3425,0,
2883,826,3426,0,
2879,983,3427,0,
2881,2882,3428,0,
2432,1766,3429,0,
1025,2565,3430,0,
2885,1096,3431,0,
2886,824,3432,0,
2742,2515,3433,0,
2888,2070,3434,0,
2708,0,3435,2,
1518,2428,3436,0,
2171,885,3437,0,
2817,2620,3438,0,
2892,2075,3439,0,
2801,1808,3440,0,
2895,2896,3441,0,
123,2897,3442,1,
2899,2083,3443,0,
2143,1051,3444,0,
2249,2213,3445,0,
2336,544,3446,0,
2903,2088,3447,0,
2389,742,3448,0,
1777,2722,3449,0,
2886,853,3450,0,
2714,696,3451,0,
2494,761,3452,0,
2250,1174,3453,0,
853,2909,3454,0,
2915,2913,3455,0,
2914,2912,3456,0,
117,2911,3457,1,
115,2917,3458,1,
2625,592,3459,0,
2918,2105,3460,0,
2920,2107,3461,0,
2921,2922,3462,0,
2923,1838,3463,0,
2208,735,3464,0,
121,2925,3465,1,
2368,839,3466,0,
2927,2115,3467,0,
1811,2739,3468,0,
2355,1460,3469,0,
2909,2318,3470,0,
2295,1426,3471,0,
2934,0,3472,2,
2936,2937,3473,0,
2279,717,3474,0,
2938,2939,3475,0,
2950,1091,3476,0,
2947,1105,3477,0,
2943,1094,3478,0,
2958,2962,3479,0,
2957,2959,3480,0,
2949,2952,3481,0,
2948,2951,3482,0,
2956,699,3483,0,
2954,2961,3484,0,
2953,2941,3485,0,
2942,2169,3486,0,
2940,836,3487,0,
2174,2945,3488,0,
2955,1107,3489,0,
2946,801,3490,0,
2944,2960,3491,0,
2969,2965,3492,0,
2980,2979,3493,0,
2973,455,3494,0,
2967,2189,3495,0,
2977,2972,3496,0,
2197,2974,3497,0,
2963,2964,3498,0,
2192,2970,3499,0,
2966,1130,3500,0,
2968,1131,3501,0,
2984,577,3502,0,
2990,2991,3503,0,
2995,2224,3504,0,
2994,1202,3505,0,
2993,1193,3506,0,
2227,2992,3507,0,
3002,3000,3508,0,
3003,3001,3509,0,
2997,2996,3510,0,
2999,2998,3511,0,
3017,3018,3512,0,
3007,775,3513,0,
3021,1253,3514,0,
3022,3020,3515,0,
3019,1252,3516,0,
2278,3025,3517,0,
3023,3024,3518,0,
3015,3016,3519,0,
3027,3026,3520,0,
3005,3004,3521,0,
2275,3014,3522,0,
3013,1248,3523,0,
3009,3008,3524,0,
3006,1240,3525,0,
3012,3010,3526,0,
3033,3034,3527,0,
2953,1041,3528,0,
3030,2284,3529,0,
2952,1235,3530,0,
3028,1262,3531,0,
3031,3032,3532,0,
3043,2304,3533,0,
3048,3047,3534,0,
3042,3041,3535,0,
3044,3046,3536,0,
3040,1295,3537,0,
3049,2317,3538,0,
3054,1321,3539,0,
3051,3052,3540,0,
3055,1069,3541,0,
2321,3053,3542,0,
3058,2331,3543,0,
3059,872,3544,0,
3064,2336,3545,0,
3056,1261,3546,0,
3060,2330,3547,0,
3063,456,3548,0,
3062,2335,3549,0,
3071,2346,3550,0,
3066,2340,3551,0,
3067,3065,3552,0,
3077,751,3553,0,
3079,1373,3554,0,
3080,1044,3555,0,
1136,3076,3556,0,
3073,2355,3557,0,
3084,1379,3558,0,
3083,1376,3559,0,
2356,2962,3560,0,
3075,1174,3561,0,
3089,1398,3562,0,
3087,3086,3563,0,
3091,2376,3564,0,
3096,1406,3565,0,
3092,2373,3566,0,
3095,1413,3567,0,
3094,2380,3568,0,
3097,2384,3569,0,
3101,570,3570,0,
3098,2386,3571,0,
3103,625,3572,0,
3099,1311,3573,0,
3107,2399,3574,0,
3104,1325,3575,0,
3108,2403,3576,0,
3106,1439,3577,0,
3116,694,3578,0,
3112,612,3579,0,
3075,2939,3580,0,
3119,2414,3581,0,
3124,0,3582,2,
3125,1049,3583,0,
3126,481,3584,0,
3127,2422,3585,0,
3129,2424,3586,0,
3131,760,3587,0,
3136,2431,3588,0,
3134,1482,3589,0,
3133,497,3590,0,
3135,3132,3591,0,
2434,3138,3592,0,
3140,777,3593,0,
3139,2134,3594,0,
3142,1502,3595,0,
2446,3141,3596,0,
3146,2453,3597,0,
3148,3147,3598,0,
3145,2452,3599,0,
3055,1086,3600,0,
3149,1329,3601,0,
3154,3153,3602,0,
3159,704,3603,0,
2473,3158,3604,0,
3160,3161,3605,0,
2476,3157,3606,0,
3165,2484,3607,0,
3167,2487,3608,0,
3166,2489,3609,0,
3173,705,3610,0,
3172,3174,3611,0,
3175,1564,3612,0,
3178,3179,3613,0,
3177,0,3614,2,
3182,2509,3615,0,
3183,1583,3616,0,
852,2967,3617,0,
2508,3181,3618,0,
3188,2519,3619,0,
3187,748,3620,0,
3186,1592,3621,0,
3184,925,3622,0,
3191,2522,3623,0,
3194,1608,3624,0,
3195,836,3625,0,
3197,1616,3626,0,
3199,1626,3627,0,
3204,852,3628,0,
3203,1026,3629,0,
3202,1470,3630,0,
3131,780,3631,0,
3201,2542,3632,0,
3205,2548,3633,0,
3207,1642,3634,0,
3211,1643,3635,0,
3209,2558,3636,0,
3208,2557,3637,0,
3212,2560,3638,0,
3042,1373,3639,0,
3218,1177,3640,0,
3217,784,3641,0,
3219,564,3642,0,
3216,2568,3643,0,
3220,935,3644,0,
3215,772,3645,0,
2566,2996,3646,0,
3221,2579,3647,0,
3224,1681,3648,0,
3222,2581,3649,0,
3229,3228,3650,0,
3225,2587,3651,0,
2941,1012,3652,0,
3232,1241,3653,0,
2590,3235,3654,0,
3233,2593,3655,0,
3040,3041,3656,0,
3234,2594,3657,0,
2600,3236,3658,0,
2599,3153,3659,0,
3239,1708,3660,0,
3238,2605,3661,0,
3242,788,3662,0,
2951,1103,3663,0,
3000,795,3664,0,
3245,2610,3665,0,
3249,2619,3666,0,
1516,3248,3667,0,
3255,3248,3668,0,
3258,777,3669,0,
3254,1739,3670,0,
3261,2639,3671,0,
3263,3264,3672,0,
3260,1750,3673,0,
3002,1140,3674,0,
2645,3015,3675,0,
3265,2643,3676,0,
3266,1160,3677,0,
3271,788,3678,0,
852,3270,3679,0,
3269,1766,3680,0,
3272,2652,3681,0,
2659,3277,3682,0,
3278,2660,3683,0,
3279,1766,3684,0,
3226,1158,3685,0,
3284,727,3686,0,
3283,2666,3687,0,
3286,905,3688,0,
3287,2672,3689,0,
3288,2674,3690,0,
3289,786,3691,0,
3293,2682,3692,0,
3291,759,3693,0,
3076,1578,3694,0,
3294,2541,3695,0,
3295,1406,3696,0,
3298,2690,3697,0,
3296,1815,3698,0,
3297,2175,3699,0,
3301,774,3700,0,
3305,834,3701,0,
3306,1838,3702,0,
3307,1841,3703,0,
3117,136,3704,0,
3170,140,3705,0,
3310,2718,3706,0,
3311,953,3707,0,
3309,3308,3708,0,
2173,3012,3709,0,
3080,2183,3710,0,
2964,2399,3711,0,
3314,3312,3712,0,
3313,1866,3713,0,
3317,499,3714,0,
3316,3315,3715,0,
3318,1160,3716,0,
3323,2740,3717,0,
3186,612,3718,0,
3324,2741,3719,0,
3269,1406,3720,0,
3329,3330,3721,0,
3331,2756,3722,0,
3336,493,3723,0,
3334,1061,3724,0,
3337,3333,3725,0,
3286,498,3726,0,
2946,1786,3727,0,
3340,1159,3728,0,
3342,1221,3729,0,
3344,690,3730,0,
2963,2771,3731,0,
3347,2776,3732,0,
3349,961,3733,0,
3348,2780,3734,0,
2601,3297,3735,0,
3350,963,3736,0,
1089,3270,3737,0,
2786,3357,3738,0,
1518,3358,3739,0,
3360,1654,3740,0,
3361,2792,3741,0,
3198,1295,3742,0,
3364,1953,3743,0,
3363,2799,3744,0,
3362,2797,3745,0,
3079,2562,3746,0,
3371,2803,3747,0,
853,3147,3748,0,
3373,2809,3749,0,
3375,717,3750,0,
3374,1562,3751,0,
3376,703,3752,0,
2819,3181,3753,0,
3378,3379,3754,0,
3377,1976,3755,0,
3383,2823,3756,0,
3381,3382,3757,0,
1166,3232,3758,0,
3385,2832,3759,0,
3388,905,3760,0,
3389,1996,3761,0,
3067,1325,3762,0,
3391,1997,3763,0,
3395,2246,3764,0,
3397,3398,3765,0,
3235,834,3766,0,
2683,3300,3767,0,
3318,3214,3768,0,
3400,0,3769,2,
3399,2848,3770,0,
3474,2124,3771,0,
3401,28,3772,1,
1373,3300,3773,0,
3031,2415,3774,0,
3352,2173,3775,0,
3406,581,3776,0,
2466,3149,3777,0,
3409,2027,3778,0,
3410,2030,3779,0,
3412,2867,3780,0,
3414,2868,3781,0,
3236,1786,3782,0,
41,3415,3783,1,
3418,2871,3784,0,
3416,2044,3785,0,
3419,2872,3786,0,
3292,1675,3787,0,
3421,2050,3788,0,
3423,2058,3789,0,
3429,2061,3790,0,
3426,2062,3791,0,
3427,2884,3792,0,
3375,1578,3793,0,
3431,3430,3794,0,
3433,2069,3795,0,
3202,1216,3796,0,
3438,3437,3797,0,
3102,2650,3798,0,
3439,2894,3799,0,
3108,812,3800,0,
3444,1146,3801,0,
3443,2900,3802,0,
3447,2904,3803,0,
2948,1256,3804,0,
3448,2090,3805,0,
3266,1561,3806,0,
3450,2093,3807,0,
3374,2623,3808,0,
3452,1055,3809,0,
3460,2919,3810,0,
3463,2924,3811,0,
3195,2771,3812,0,
3466,2116,3813,0,
2926,3464,3814,0,
3467,2929,3815,0,
3192,2701,3816,0,
2932,3470,3817,0,
3402,0,3818,2,
3489,1140,3819,0,
3483,2203,3820,0,
2982,3488,3821,0,
2976,3491,3822,0,
3484,2978,3823,0,
3476,1133,3824,0,
3481,2975,3825,0,
3480,3479,3826,0,
3487,2981,3827,0,
3478,2199,3828,0,
2971,3477,3829,0,
3485,3486,3830,0,
3482,3490,3831,0,
3492,2988,3832,0,
3495,2210,3833,0,
3494,2983,3834,0,
3497,2986,3835,0,
3491,2987,3836,0,
3500,1158,3837,0,
3498,2985,3838,0,
3501,2211,3839,0,
3505,2245,3840,0,
3506,2253,3841,0,
3507,2268,3842,0,
3504,2264,3843,0,
3510,3511,3844,0,
3508,3509,3845,0,
3011,3475,3846,0,
3523,3036,3847,0,
3514,3515,3848,0,
3519,3512,3849,0,
3516,2286,3850,0,
3029,3513,3851,0,
3520,3035,3852,0,
3517,3518,3853,0,
3525,3521,3854,0,
3522,3524,3855,0,
3038,3529,3856,0,
3527,3530,3857,0,
3531,3532,3858,0,
3528,2135,3859,0,
3050,3536,3860,0,
3534,2314,3861,0,
3533,1315,3862,0,
3535,1319,3863,0,
3537,1314,3864,0,
3539,2332,3865,0,
3542,3540,3866,0,
3541,1025,3867,0,
3543,3544,3868,0,
3546,3545,3869,0,
3547,3068,3870,0,
3552,3074,3871,0,
3551,1212,3872,0,
3558,3560,3873,0,
3554,2368,3874,0,
3088,3559,3875,0,
3561,3090,3876,0,
3553,2363,3877,0,
3557,779,3878,0,
3556,2246,3879,0,
3562,2383,3880,0,
3563,3480,3881,0,
3567,3102,3882,0,
3568,1319,3883,0,
3566,1171,3884,0,
3565,1427,3885,0,
3105,3570,3886,0,
3572,751,3887,0,
1099,3571,3888,0,
3577,2406,3889,0,
3574,3110,3890,0,
3576,3113,3891,0,
3566,3122,3892,0,
3580,2316,3893,0,
3584,1469,3894,0,
2428,3585,3895,0,
3587,797,3896,0,
3590,1066,3897,0,
3593,2445,3898,0,
3596,2459,3899,0,
3601,1272,3900,0,
3600,2462,3901,0,
3598,1094,3902,0,
3037,3597,3903,0,
3605,1552,3904,0,
3603,1547,3905,0,
3604,2488,3906,0,
3609,3608,3907,0,
3612,2505,3908,0,
3611,2500,3909,0,
3610,1570,3910,0,
3500,2513,3911,0,
3618,2514,3912,0,
1146,3615,3913,0,
3616,1007,3914,0,
3619,3189,3915,0,
3622,2523,3916,0,
3621,801,3917,0,
3624,2530,3918,0,
3571,3198,3919,0,
3627,2544,3920,0,
3629,2551,3921,0,
3630,1495,3922,0,
3631,753,3923,0,
3634,3210,3924,0,
3637,3636,3925,0,
3635,2462,3926,0,
3638,3214,3927,0,
3223,3642,3928,0,
3641,1676,3929,0,
3644,2575,3930,0,
3647,3226,3931,0,
3648,2585,3932,0,
2398,3652,3933,0,
3651,2591,3934,0,
3655,1026,3935,0,
3653,473,3936,0,
3654,776,3937,0,
3656,1158,3938,0,
3658,3244,3939,0,
3243,3659,3940,0,
3662,2618,3941,0,
3661,2616,3942,0,
3665,3252,3943,0,
3664,782,3944,0,
1026,3652,3945,0,
3663,1069,3946,0,
3667,1205,3947,0,
3668,1748,3948,0,
3669,1751,3949,0,
3670,2638,3950,0,
3673,866,3951,0,
3677,1329,3952,0,
3679,3274,3953,0,
3680,2656,3954,0,
3684,3280,3955,0,
3282,3643,3956,0,
3686,2668,3957,0,
2670,3688,3958,0,
3690,3290,3959,0,
3691,1802,3960,0,
3292,3626,3961,0,
1811,3692,3962,0,
3693,784,3963,0,
3626,3300,3964,0,
2143,3552,3965,0,
3699,2692,3966,0,
3698,2691,3967,0,
3700,2702,3968,0,
3702,2707,3969,0,
3708,2719,3970,0,
3707,2720,3971,0,
3706,2721,3972,0,
2726,3709,3973,0,
3715,3320,3974,0,
3714,2738,3975,0,
3716,1877,3976,0,
3718,784,3977,0,
3719,2621,3978,0,
3608,2428,3979,0,
3720,2748,3980,0,
3721,2760,3981,0,
3723,2762,3982,0,
3727,761,3983,0,
3730,2303,3984,0,
3729,3345,3985,0,
3637,2967,3986,0,
3733,3351,3987,0,
3735,2616,3988,0,
3737,3353,3989,0,
3585,1096,3990,0,
1007,3529,3991,0,
3739,1436,3992,0,
106,3741,3993,1,
3744,3367,3994,0,
3742,2497,3995,0,
3746,3368,3996,0,
3719,1808,3997,0,
3750,1978,3998,0,
3752,2822,3999,0,
3754,2829,4000,0,
3753,1987,4001,0,
3757,2833,4002,0,
3756,3387,4003,0,
111,3759,4004,1,
3673,1314,4005,0,
3701,2701,4006,0,
3760,2836,4007,0,
3763,1999,4008,0,
3761,2839,4009,0,
3764,974,4010,0,
3647,3661,4011,0,
3767,3766,4012,0,
3770,2849,4013,0,
3818,34,4014,0,
3773,3774,4015,0,
3172,3616,4016,0,
3776,2024,4017,0,
1211,3692,4018,0,
3778,2862,4019,0,
3779,2863,4020,0,
3780,1311,4021,0,
3650,1658,4022,0,
3787,1211,4023,0,
3666,1089,4024,0,
3788,2878,4025,0,
3730,1562,4026,0,
3743,2495,4027,0,
3789,2880,4028,0,
3790,2887,4029,0,
1658,3597,4030,0,
3795,2889,4031,0,
3794,2890,4032,0,
3796,2891,4033,0,
3798,3440,4034,0,
3615,1811,4035,0,
3445,3572,4036,0,
1207,3663,4037,0,
3805,2906,4038,0,
2987,3609,4039,0,
3807,2907,4040,0,
3806,3451,4041,0,
3808,3454,4042,0,
3475,3453,4043,0,
3809,2916,4044,0,
3567,2375,4045,0,
3813,2928,4046,0,
3755,680,4047,0,
3477,954,4048,0,
3816,3468,4049,0,
3771,2850,4050,0,
3964,461,4051,0,
3820,3829,4052,0,
3827,3499,4053,0,
3825,3830,4054,0,
3831,3496,4055,0,
3826,3824,4056,0,
3828,2989,4057,0,
3822,3819,4058,0,
3493,3821,4059,0,
3823,2945,4060,0,
3833,1204,4061,0,
3502,3838,4062,0,
3836,3835,4063,0,
3834,3503,4064,0,
3837,3832,4065,0,
3843,3842,4066,0,
3840,3841,4067,0,
3846,3526,4068,0,
3851,3039,4069,0,
3848,3037,4070,0,
3850,3853,4071,0,
3849,3854,4072,0,
3847,3855,4073,0,
3857,3856,4074,0,
3862,3057,4075,0,
3861,3860,4076,0,
3863,3538,4077,0,
3864,3061,4078,0,
3866,3865,4079,0,
3867,3548,4080,0,
3082,3870,4081,0,
3868,844,4082,0,
3869,3078,4083,0,
2370,3872,4084,0,
3875,3873,4085,0,
3878,1418,4086,0,
3877,3093,4087,0,
3884,3882,4088,0,
3883,2398,4089,0,
3885,1064,4090,0,
3111,3887,4091,0,
3886,3109,4092,0,
3888,3114,4093,0,
3890,2416,4094,0,
3889,2143,4095,0,
3891,2417,4096,0,
3893,3130,4097,0,
3894,1026,4098,0,
3895,1426,4099,0,
3865,3589,4100,0,
3897,2448,4101,0,
3896,2441,4102,0,
3847,1516,4103,0,
3901,3602,4104,0,
3156,3900,4105,0,
3903,2480,4106,0,
3905,3169,4107,0,
3910,2506,4108,0,
3613,3908,4109,0,
3914,3913,4110,0,
3911,3185,4111,0,
3192,3916,4112,0,
3915,1007,4113,0,
3917,2525,4114,0,
3628,3920,4115,0,
3921,2556,4116,0,
3923,1644,4117,0,
3925,3639,4118,0,
2578,3915,4119,0,
3646,3927,4120,0,
3928,3230,4121,0,
1011,3930,4122,0,
3932,2938,4123,0,
3933,2385,4124,0,
3935,3241,4125,0,
3938,3936,4126,0,
3940,2612,4127,0,
3850,1160,4128,0,
3251,3941,4129,0,
2965,3836,4130,0,
3944,1740,4131,0,
3946,3490,4132,0,
3947,3262,4133,0,
3950,2232,4134,0,
3949,3268,4135,0,
3951,3675,4136,0,
3952,3678,4137,0,
3954,2657,4138,0,
3955,3281,4139,0,
3956,3685,4140,0,
1044,3959,4141,0,
3960,2683,4142,0,
3962,3694,4143,0,
3932,3531,4144,0,
3965,1705,4145,0,
3967,1319,4146,0,
3966,2698,4147,0,
3906,1658,4148,0,
3972,954,4149,0,
3971,1436,4150,0,
3970,1658,4151,0,
3868,1461,4152,0,
2428,3840,4153,0,
3325,3975,4154,0,
3976,2744,4155,0,
3974,1705,4156,0,
3978,460,4157,0,
3977,1885,4158,0,
3979,2182,4159,0,
3820,3148,4160,0,
3980,1900,4161,0,
3981,3338,4162,0,
3982,3343,4163,0,
3985,3346,4164,0,
3983,2773,4165,0,
3073,3852,4166,0,
3352,3848,4167,0,
3988,3354,4168,0,
3990,3359,4169,0,
2269,3991,4170,0,
3992,3740,4171,0,
3743,3823,4172,0,
2436,3930,4173,0,
3282,3972,4174,0,
3894,1217,4175,0,
1051,3967,4176,0,
3997,1090,4177,0,
3998,2826,4178,0,
3960,3755,4179,0,
3999,3380,4180,0,
4001,2831,4181,0,
3920,4003,4182,0,
3969,680,4183,0,
4010,2843,4184,0,
4011,3768,4185,0,
4016,3775,4186,0,
3950,2963,4187,0,
4017,3514,4188,0,
2988,3835,4189,0,
4021,1011,4190,0,
4022,836,4191,0,
3924,1811,4192,0,
3842,3016,4193,0,
4024,2813,4194,0,
4026,3424,4195,0,
3918,1518,4196,0,
4027,3425,4197,0,
3436,3885,4198,0,
4033,2893,4199,0,
3943,3388,4200,0,
3857,3991,4201,0,
4035,3581,4202,0,
4036,3446,4203,0,
4037,3804,4204,0,
4041,2908,4205,0,
3852,3012,4206,0,
4009,3255,4207,0,
3837,2969,4208,0,
1658,4044,4209,0,
3918,3811,4210,0,
2931,4047,4211,0,
4048,3469,4212,0,
3811,4044,4213,0,
4060,4056,4214,0,
4055,4054,4215,0,
4053,3839,4216,0,
4057,4059,4217,0,
4058,4052,4218,0,
4064,4061,4219,0,
4065,4062,4220,0,
3845,4067,4221,0,
3844,4066,4222,0,
3852,4068,4223,0,
4070,3859,4224,0,
4073,3045,4225,0,
4072,4069,4226,0,
4074,1313,4227,0,
4077,3070,4228,0,
4075,4076,4229,0,
4078,3069,4230,0,
4079,4075,4231,0,
4080,3081,4232,0,
4081,3555,4233,0,
3871,4082,4234,0,
4084,3876,4235,0,
4086,2388,4236,0,
3881,4085,4237,0,
4087,1211,4238,0,
4090,3115,4239,0,
4088,3575,4240,0,
4093,3578,4241,0,
4092,1461,4242,0,
4091,3118,4243,0,
4095,3892,4244,0,
4098,2387,4245,0,
4099,3137,4246,0,
4100,3143,4247,0,
2232,4101,4248,0,
4102,3150,4249,0,
4104,3164,4250,0,
4105,3162,4251,0,
4106,3168,4252,0,
4107,2497,4253,0,
3099,4092,4254,0,
3617,4073,4255,0,
4110,3620,4256,0,
4113,4114,4257,0,
4112,3196,4258,0,
4115,3922,4259,0,
4116,3213,4260,0,
4118,3645,4261,0,
4120,3929,4262,0,
4122,3931,4263,0,
4121,3650,4264,0,
4123,3237,4265,0,
4125,3660,4266,0,
4126,3247,4267,0,
4128,3942,4268,0,
2626,4061,4269,0,
4130,3502,4270,0,
4056,3945,4271,0,
4131,2640,4272,0,
4133,3267,4273,0,
4134,3674,4274,0,
4135,3041,4275,0,
4137,3275,4276,0,
4139,1314,4277,0,
4140,3285,4278,0,
3961,4141,4279,0,
4142,3695,4280,0,
4143,3696,4281,0,
4127,3635,4282,0,
4146,1836,4283,0,
4147,3303,4284,0,
4151,4149,4285,0,
4150,3711,4286,0,
4148,3710,4287,0,
4058,3494,4288,0,
4152,2295,4289,0,
4156,3327,4290,0,
4154,4153,4291,0,
4158,2755,4292,0,
4157,1893,4293,0,
4160,3335,4294,0,
4159,3332,4295,0,
3672,4162,4296,0,
3558,4083,4297,0,
3717,4164,4298,0,
4169,2791,4299,0,
3530,4170,4300,0,
4135,1187,4301,0,
4171,3745,4302,0,
4173,3370,4303,0,
4071,1136,4304,0,
3824,4061,4305,0,
4177,2827,4306,0,
4180,1051,4307,0,
4179,1044,4308,0,
4145,3294,4309,0,
4178,3237,4310,0,
4181,1461,4311,0,
4183,3968,4312,0,
3074,4184,4313,0,
4183,873,4314,0,
3403,4101,4315,0,
4186,2857,4316,0,
4121,1518,4317,0,
4162,3291,4318,0,
2860,4155,4319,0,
4188,3411,4320,0,
4018,4187,4321,0,
4178,4057,4322,0,
4189,3899,4323,0,
4191,3417,4324,0,
4139,1436,4325,0,
4192,3422,4326,0,
4196,1033,4327,0,
4083,3012,4328,0,
4087,1011,4329,0,
4073,738,4330,0,
3636,4061,4331,0,
4200,2407,4332,0,
4201,860,4333,0,
4107,1211,4334,0,
2910,4206,4335,0,
4209,1211,4336,0,
4208,3499,4337,0,
4180,3074,4338,0,
4213,3471,4339,0,
4212,2933,4340,0,
4051,680,4341,0,
4063,4216,4342,0,
4214,4215,4343,0,
4218,4217,4344,0,
4222,4221,4345,0,
3858,4223,4346,0,
4224,4225,4347,0,
4230,3072,4348,0,
3550,4229,4349,0,
4228,3082,4350,0,
4083,4232,4351,0,
4233,3874,4352,0,
4234,3879,4353,0,
4235,3100,4354,0,
3573,4238,4355,0,
4240,3120,4356,0,
4243,4094,4357,0,
4241,3123,4358,0,
4244,3583,4359,0,
4245,3594,4360,0,
4246,3592,4361,0,
4247,3595,4362,0,
4249,3899,4363,0,
3152,4248,4364,0,
4250,3854,4365,0,
4251,1557,4366,0,
4252,3171,4367,0,
4254,2997,4368,0,
4256,3193,4369,0,
4258,3626,4370,0,
4257,3625,4371,0,
4259,4117,4372,0,
3643,4251,4373,0,
4261,3231,4374,0,
4263,3934,4375,0,
4265,3937,4376,0,
4266,3250,4377,0,
4267,4094,4378,0,
4268,3256,4379,0,
4270,2981,4380,0,
4271,4132,4381,0,
4274,3273,4382,0,
4267,3551,4383,0,
4277,2665,4384,0,
4278,3957,4385,0,
4236,3529,4386,0,
4279,3963,4387,0,
4280,1675,4388,0,
4281,3697,4389,0,
4284,1140,4390,0,
4283,2705,4391,0,
4285,3713,4392,0,
3973,4286,4393,0,
4287,3712,4394,0,
4288,2983,4395,0,
2749,4250,4396,0,
4291,3328,4397,0,
4295,3339,4398,0,
4294,3724,4399,0,
4296,3726,4400,0,
2768,4217,4401,0,
3987,4276,4402,0,
4299,3365,4403,0,
3366,4223,4404,0,
4301,4229,4405,0,
3034,4300,4406,0,
4302,2143,4407,0,
4260,1212,4408,0,
4304,3751,4409,0,
4176,4305,4410,0,
4306,3386,4411,0,
4309,888,4412,0,
4310,3758,4413,0,
4221,4243,4414,0,
4307,704,4415,0,
4311,4005,4416,0,
4312,2694,4417,0,
4276,1099,4418,0,
3404,4315,4419,0,
4316,3408,4420,0,
4318,2846,4421,0,
4190,4323,4422,0,
4324,3785,4423,0,
3786,4250,4424,0,
4325,1121,4425,0,
3970,4228,4426,0,
4326,4194,4427,0,
3791,4232,4428,0,
3861,4243,4429,0,
4329,3550,4430,0,
4330,1266,4431,0,
1099,4262,4432,0,
4249,2232,4433,0,
4333,2272,4434,0,
3974,4217,4435,0,
4335,4043,4436,0,
4337,2940,4437,0,
4336,4045,4438,0,
3959,4284,4439,0,
3841,4280,4440,0,
4069,4302,4441,0,
4344,4219,4442,0,
4342,4220,4443,0,
4343,0,4444,2,
4071,4345,4445,0,
4226,4346,4446,0,
4347,4227,4447,0,
4231,4348,4448,0,
4349,3085,4449,0,
2369,4350,4450,0,
4352,3564,4451,0,
4353,3569,4452,0,
1011,4354,4453,0,
4348,1136,4454,0,
4355,4089,4455,0,
4356,3581,4456,0,
4358,1212,4457,0,
4359,3586,4458,0,
4361,3151,4459,0,
4360,3898,4460,0,
4362,3155,4461,0,
4364,3902,4462,0,
2477,4363,4463,0,
4366,1563,4464,0,
4365,4367,4465,0,
4368,3912,4466,0,
4369,4114,4467,0,
4370,2540,4468,0,
4371,3200,4469,0,
4372,4260,4470,0,
4119,4373,4471,0,
4262,4374,4472,0,
4375,3240,4473,0,
4374,3889,4474,0,
4376,3246,4475,0,
4269,4378,4476,0,
3943,4377,4477,0,
4379,3259,4478,0,
4381,2949,4479,0,
4380,3870,4480,0,
3843,4367,4481,0,
4382,3276,4482,0,
2990,4358,4483,0,
4383,1217,4484,0,
4385,3559,4485,0,
4386,4221,4486,0,
4367,748,4487,0,
4387,3299,4488,0,
4388,2694,4489,0,
4389,4051,4490,0,
4391,3701,4491,0,
4390,2706,4492,0,
4392,3322,4493,0,
4393,3319,4494,0,
4394,3321,4495,0,
4395,3717,4496,0,
4358,2497,4497,0,
4397,3722,4498,0,
4399,3341,4499,0,
4398,1033,4500,0,
4401,3731,4501,0,
4166,4380,4502,0,
4403,4164,4503,0,
4406,3994,4504,0,
4404,3369,4505,0,
4405,4172,4506,0,
4408,3025,4507,0,
4411,3589,4508,0,
4414,4182,4509,0,
4006,4391,4510,0,
2528,4415,4511,0,
4413,3392,4512,0,
4416,4007,4513,0,
1692,4415,4514,0,
4389,4391,4515,0,
4419,4015,4516,0,
4348,3599,4517,0,
4374,2295,4518,0,
4420,3174,4519,0,
4321,4421,4520,0,
4423,3420,4521,0,
4411,3014,4522,0,
4425,2876,4523,0,
4427,3428,4524,0,
4377,3791,4525,0,
4429,4428,4526,0,
3403,4403,4527,0,
4331,4432,4528,0,
4431,1028,4529,0,
4385,2963,4530,0,
3786,4356,4531,0,
4434,2902,4532,0,
3801,4433,4533,0,
4420,3407,4534,0,
4436,3456,4535,0,
4437,2982,4536,0,
4439,3192,4537,0,
4354,3340,4538,0,
4446,0,4539,2,
4442,0,4540,2,
4343,4443,4541,0,
4445,0,4542,2,
4443,0,4543,2,
4447,3549,4544,0,
367,4444,4545,0,
4450,4449,4546,0,
4351,4448,4547,0,
4237,4452,4548,0,
4451,4236,4549,0,
285,4444,4550,0,
4454,2407,4551,0,
4455,3121,4552,0,
284,4444,4553,0,
654,4444,4554,0,
4458,496,4555,0,
656,4444,4556,0,
4103,4460,4557,0,
4459,1211,4558,0,
4461,1295,4559,0,
4462,3163,4560,0,
658,4444,4561,0,
4465,4253,4562,0,
377,4444,4563,0,
4464,923,4564,0,
4466,3190,4565,0,
1569,4444,4566,0,
4467,3918,4567,0,
926,4444,4568,0,
4469,3632,4569,0,
661,4444,4570,0,
4468,3206,4571,0,
4443,103,4572,0,
4470,3489,4573,0,
1629,4444,4574,0,
381,4444,4575,0,
4472,4264,4576,0,
4473,2387,4577,0,
4127,4475,4578,0,
4474,2620,4579,0,
265,4444,4580,0,
3672,4478,4581,0,
4479,4273,4582,0,
382,4444,4583,0,
4481,4276,4584,0,
4482,3655,4585,0,
4484,4483,4586,0,
4486,4485,4587,0,
4487,792,4588,0,
836,4488,4589,0,
4489,1831,4590,0,
4490,3916,4591,0,
4492,2709,4592,0,
4488,2687,4593,0,
3969,4491,4594,0,
4494,2497,4595,0,
3638,4495,4596,0,
3203,4493,4597,0,
4289,4497,4598,0,
4496,4155,4599,0,
4498,1461,4600,0,
4163,4499,4601,0,
4451,4369,4602,0,
4502,4402,4603,0,
3995,4503,4604,0,
4506,3996,4605,0,
4407,4504,4606,0,
4461,4069,4607,0,
4507,3748,4608,0,
4495,2810,4609,0,
4109,4458,4610,0,
4508,3390,4611,0,
3762,4511,4612,0,
4512,3393,4613,0,
4513,3394,4614,0,
4313,4514,4615,0,
4516,3405,4616,0,
4317,4517,4617,0,
4372,4482,4618,0,
4518,1160,4619,0,
4519,2464,4620,0,
4520,3413,4621,0,
4372,4521,4622,0,
4475,3525,4623,0,
4193,4494,4624,0,
4522,2877,4625,0,
4451,3975,4626,0,
4475,2810,4627,0,
4498,1675,4628,0,
4524,3971,4629,0,
4525,3793,4630,0,
4527,2513,4631,0,
4499,4524,4632,0,
4528,4332,4633,0,
4529,2508,4634,0,
4202,4530,4635,0,
4521,3204,4636,0,
4532,2905,4637,0,
286,4444,4638,0,
670,4444,4639,0,
3302,159,4640,1,
4640,4443,4641,0,
3302,4641,4642,1,
4163,4524,4643,0,
4478,3358,4644,0,
4534,3449,4645,0,
204,4444,4646,0,
4181,4460,4647,0,
406,4444,4648,0,
386,4444,4649,0,
372,4444,4650,0,
124,4442,4651,0,
4210,4459,4652,0,
4183,4490,4653,0,
4537,4338,4654,0,
371,4444,4655,0,
2694,4490,4656,0,
655,4444,4657,0,
368,4444,4658,0,
4440,4452,4659,0,
4498,4179,4660,0,
4548,0,4661,2,
4547,0,4662,2,
4539,4343,4663,1,
4541,0,4664,2,
4539,4444,4665,0,
4542,4446,4666,1,
1363,4543,4667,0,
654,4540,4668,0,
4540,4443,4669,1,
4542,4539,4670,0,
368,4539,4671,0,
4542,4544,4672,1,
4545,0,4673,2,
1388,4543,4674,0,
4544,0,4675,2,
368,4540,4676,0,
4546,3880,4677,0,
367,4543,4678,0,
4443,4540,4679,0,
371,4542,4680,0,
655,4539,4681,0,
656,4540,4682,0,
284,4539,4683,0,
3117,4543,4684,0,
4453,4549,4685,0,
284,4540,4686,0,
285,4543,4687,0,
656,4543,4688,0,
4550,0,4689,2,
4551,3579,4690,0,
285,4540,4691,0,
654,4539,4692,0,
367,4539,4693,0,
367,4542,4694,0,
4242,4552,4695,0,
368,4542,4696,0,
4553,0,4697,2,
4554,0,4698,2,
658,4540,4699,0,
654,4542,4700,0,
285,4539,4701,0,
284,4542,4702,0,
4556,0,4703,2,
4555,1501,4704,0,
377,4543,4705,0,
4559,618,4706,0,
4560,3906,4707,0,
285,4542,4708,0,
656,4539,4709,0,
3170,4543,4710,0,
377,4540,4711,0,
1569,4543,4712,0,
4561,0,4713,2,
658,4539,4714,0,
1569,4540,4715,0,
4563,0,4716,2,
4562,3909,4717,0,
4564,2507,4718,0,
656,4542,4719,0,
926,4540,4720,0,
661,4543,4721,0,
377,4539,4722,0,
658,4542,4723,0,
4566,0,4724,2,
4565,529,4725,0,
1629,4543,4726,0,
661,4540,4727,0,
4567,3919,4728,0,
4568,0,4729,2,
1569,4539,4730,0,
377,4542,4731,0,
926,4539,4732,0,
1629,4540,4733,0,
4569,4571,4734,0,
4570,0,4735,2,
1569,4542,4736,0,
381,4540,4737,0,
4572,0,4738,2,
265,4543,4739,0,
661,4542,4740,0,
661,4539,4741,0,
926,4542,4742,0,
1629,4539,4743,0,
4574,0,4744,2,
4573,3227,4745,0,
265,4540,4746,0,
382,4543,4747,0,
4575,0,4748,2,
4576,4124,4749,0,
1629,4542,4750,0,
4552,836,4751,0,
4577,2311,4752,0,
4579,3253,4753,0,
4129,4578,4754,0,
382,4540,4755,0,
381,4539,4756,0,
4580,0,4757,2,
103,4540,4758,0,
4480,4581,4759,0,
4582,4275,4760,0,
381,4542,4761,0,
265,4539,4762,0,
382,4539,4763,0,
265,4542,4764,0,
4583,0,4765,2,
4584,4585,4766,0,
382,4542,4767,0,
103,4542,4768,0,
4586,4384,4769,0,
4587,3958,4770,0,
1412,4588,4771,0,
4589,4144,4772,0,
4590,4145,4773,0,
4591,3968,4774,0,
4592,1675,4775,0,
4593,4594,4776,0,
4596,4595,4777,0,
4597,3326,4778,0,
4396,4599,4779,0,
4600,1159,4780,0,
4601,3984,4781,0,
4602,2976,4782,0,
3986,4569,4783,0,
4603,4168,4784,0,
1786,4588,4785,0,
4604,4505,4786,0,
4606,4303,4787,0,
4607,1033,4788,0,
4605,3372,4789,0,
4609,2811,4790,0,
4610,3384,4791,0,
3959,4592,4792,0,
4590,4389,4793,0,
4509,4611,4794,0,
4009,4613,4795,0,
4614,3858,4796,0,
4615,3968,4797,0,
4614,4398,4798,0,
3407,4616,4799,0,
4319,4618,4800,0,
4620,977,4801,0,
4619,4322,4802,0,
4621,822,4803,0,
2874,4560,4804,0,
4023,4622,4805,0,
4624,4623,4806,0,
4626,4426,4807,0,
4627,2885,4808,0,
4628,4030,4809,0,
4327,4629,4810,0,
4430,4632,4811,0,
4634,3800,4812,0,
4565,4273,4813,0,
4636,2901,4814,0,
286,4543,4815,0,
4613,3941,4816,0,
386,4539,4817,0,
670,4540,4818,0,
386,4540,4819,0,
286,4539,4820,0,
2711,4543,4821,0,
4638,0,4822,2,
372,4540,4823,0,
4642,2703,4824,0,
204,4542,4825,0,
406,4539,4826,0,
4639,0,4827,2,
386,4542,4828,0,
371,4543,4829,0,
4614,3987,4830,0,
4334,4643,4831,0,
1842,4543,4832,0,
4644,1199,4833,0,
267,4539,4834,0,
406,4540,4835,0,
267,4542,4836,0,
204,4539,4837,0,
4646,0,4838,2,
4647,4207,4839,0,
4648,0,4840,2,
670,4543,4841,0,
286,4540,4842,0,
4649,0,4843,2,
655,4543,4844,0,
371,4540,4845,0,
286,4542,4846,0,
670,4539,4847,0,
4650,0,4848,2,
406,4542,4849,0,
4651,4443,4850,0,
670,4542,4851,0,
4003,4621,4852,0,
4017,4552,4853,0,
2996,4571,4854,0,
4616,3994,4855,0,
4653,2930,4856,0,
655,4540,4857,0,
372,4539,4858,0,
3916,4594,4859,0,
4655,0,4860,2,
655,4542,4861,0,
371,4539,4862,0,
372,4542,4863,0,
4657,0,4864,2,
367,4540,4865,0,
654,4543,4866,0,
4658,0,4867,2,
4049,4659,4868,0,
4660,4441,4869,0,
4868,4340,4870,0,
4749,3939,4871,0,
670,4661,4872,0,
286,4662,4873,0,
4663,0,4874,2,
4665,0,4875,2,
4664,4540,4876,0,
4666,0,4877,2,
4667,4443,4878,1,
4878,121,4879,0,
4667,4879,4880,1,
4670,0,4881,2,
4672,0,4882,2,
4671,0,4883,2,
4668,0,4884,2,
4669,0,4885,2,
4661,4662,4886,0,
4542,4675,4887,0,
4674,4443,4888,1,
4888,115,4889,0,
4674,4889,4890,1,
4661,4547,4891,1,
4676,0,4892,2,
4662,4677,4893,1,
4678,0,4894,2,
372,4675,4895,0,
4675,4548,4896,1,
4675,4661,4897,0,
4444,4679,4898,1,
4681,0,4899,2,
4680,0,4900,2,
4677,0,4901,2,
4686,0,4902,2,
4685,4239,4903,0,
4682,0,4904,2,
4683,0,4905,2,
4684,4443,4906,1,
4906,106,4907,0,
4684,4907,4908,1,
368,4675,4909,0,
4688,0,4910,2,
4687,0,4911,2,
4690,3128,4912,0,
4691,0,4913,2,
4695,4456,4914,0,
4694,0,4915,2,
4692,0,4916,2,
4696,0,4917,2,
4693,0,4918,2,
368,4661,4919,0,
367,4675,4920,0,
4700,0,4921,2,
4701,0,4922,2,
4702,0,4923,2,
4699,0,4924,2,
4704,2458,4925,0,
4705,0,4926,2,
654,4675,4927,0,
368,4662,4928,0,
4706,1495,4929,0,
284,4675,4930,0,
367,4661,4931,0,
4709,0,4932,2,
4707,3907,4933,0,
4708,0,4934,2,
4710,4443,4935,1,
4935,111,4936,0,
4710,4936,4937,1,
4712,0,4938,2,
4711,0,4939,2,
4714,0,4940,2,
4715,0,4941,2,
4718,4109,4942,0,
284,4661,4943,0,
285,4675,4944,0,
4717,4108,4945,0,
654,4661,4946,0,
367,4662,4947,0,
4719,0,4948,2,
4720,0,4949,2,
4721,0,4950,2,
654,4662,4951,0,
4723,0,4952,2,
4722,0,4953,2,
4725,1619,4954,0,
656,4675,4955,0,
284,4662,4956,0,
285,4661,4957,0,
4727,0,4958,2,
658,4675,4959,0,
4726,0,4960,2,
4731,0,4961,2,
4730,0,4962,2,
4733,0,4963,2,
4732,0,4964,2,
658,4661,4965,0,
377,4675,4966,0,
4736,0,4967,2,
285,4662,4968,0,
4734,3924,4969,0,
656,4661,4970,0,
4738,2572,4971,0,
4737,0,4972,2,
4739,0,4973,2,
926,4675,4974,0,
656,4662,4975,0,
4743,0,4976,2,
4742,0,4977,2,
4740,0,4978,2,
4741,0,4979,2,
4471,4745,4980,0,
1569,4675,4981,0,
377,4661,4982,0,
4747,0,4983,2,
658,4662,4984,0,
4746,0,4985,2,
1569,4661,4986,0,
377,4662,4987,0,
661,4675,4988,0,
926,4661,4989,0,
4750,0,4990,2,
4751,3666,4991,0,
4752,3257,4992,0,
4476,4753,4993,0,
926,4662,4994,0,
4756,0,4995,2,
1629,4675,4996,0,
4755,0,4997,2,
661,4661,4998,0,
4758,0,4999,2,
4759,4136,5000,0,
1569,4662,5001,0,
4760,3953,5002,0,
381,4675,5003,0,
4764,0,5004,2,
4763,0,5005,2,
4762,0,5006,2,
4761,0,5007,2,
1629,4661,5008,0,
661,4662,5009,0,
4766,3682,5010,0,
265,4675,5011,0,
381,4661,5012,0,
4767,0,5013,2,
1629,4662,5014,0,
382,4675,5015,0,
265,4661,5016,0,
381,4662,5017,0,
4769,3687,5018,0,
4768,0,5019,2,
4770,3689,5020,0,
382,4661,5021,0,
265,4662,5022,0,
4282,4771,5023,0,
4773,861,5024,0,
382,4662,5025,0,
4776,4775,5026,0,
4777,4290,5027,0,
4598,4778,5028,0,
4779,4293,5029,0,
3568,4718,5030,0,
4780,4297,5031,0,
4501,4781,5032,0,
4782,4298,5033,0,
4783,4167,5034,0,
4784,3738,5035,0,
4785,2805,5036,0,
4786,3747,5037,0,
4789,0,5038,2,
4788,4174,5039,0,
4790,2815,5040,0,
4410,4791,5041,0,
4792,4308,5042,0,
4510,4793,5043,0,
4794,4008,5044,0,
4795,3053,5045,0,
3396,4796,5046,0,
4797,4571,5047,0,
4418,4798,5048,0,
4799,3777,5049,0,
4800,4320,5050,0,
4802,4801,5051,0,
4803,3782,5052,0,
4804,4424,5053,0,
4805,4625,5054,0,
4806,4195,5055,0,
4807,4197,5056,0,
4808,3432,5057,0,
4809,4526,5058,0,
4810,4630,5059,0,
4706,684,5060,0,
4811,4034,5061,0,
4813,1187,5062,0,
4635,4812,5063,0,
4533,4814,5064,0,
4815,0,5065,2,
4435,4816,5066,0,
4819,0,5067,2,
4818,0,5068,2,
4817,0,5069,2,
4820,0,5070,2,
4821,0,5071,2,
4824,0,5072,2,
4823,0,5073,2,
4828,0,5074,2,
4825,0,5075,2,
4826,0,5076,2,
267,4675,5077,0,
4831,4645,5078,0,
4829,0,5079,2,
4039,4830,5080,0,
4832,4443,5081,1,
5081,123,5082,0,
4832,5082,5083,1,
4835,0,5084,2,
4834,0,5085,2,
4837,0,5086,2,
4836,0,5087,2,
4841,0,5088,2,
4842,0,5089,2,
4839,4042,5090,0,
4845,0,5091,2,
386,4675,5092,0,
204,4675,5093,0,
4844,0,5094,2,
4846,0,5095,2,
4847,0,5096,2,
267,4661,5097,0,
386,4661,5098,0,
4849,0,5099,2,
286,4675,5100,0,
4851,0,5101,2,
4536,4852,5102,0,
267,4662,5103,0,
406,4675,5104,0,
204,4661,5105,0,
406,4661,5106,0,
204,4662,5107,0,
406,4662,5108,0,
4854,3812,5109,0,
4855,3225,5110,0,
4652,4853,5111,0,
4654,4856,5112,0,
372,4662,5113,0,
655,4675,5114,0,
371,4661,5115,0,
4858,0,5116,2,
4857,0,5117,2,
4184,4859,5118,0,
372,4661,5119,0,
371,4675,5120,0,
4861,0,5121,2,
4863,0,5122,2,
4862,0,5123,2,
386,4662,5124,0,
670,4675,5125,0,
286,4661,5126,0,
655,4662,5127,0,
371,4662,5128,0,
655,4661,5129,0,
4865,0,5130,2,
4866,0,5131,2,
670,4662,5132,0,
4869,4339,5133,0,
4873,0,5134,2,
4872,0,5135,2,
5072,117,5136,1,
4874,4540,5137,0,
4663,4876,5138,1,
4880,0,5139,2,
4883,4673,5140,0,
4877,4882,5141,0,
369,4885,5142,0,
4886,0,5143,2,
4890,0,5144,2,
4887,0,5145,2,
375,4885,5146,0,
4893,0,5147,2,
4895,0,5148,2,
4896,0,5149,2,
4662,4901,5150,0,
4897,0,5151,2,
375,4898,5152,0,
4903,4096,5153,0,
4905,4689,5154,0,
4908,0,5155,2,
4909,0,5156,2,
4697,4913,5157,0,
4357,4912,5158,0,
4917,4918,5159,0,
4914,4097,5160,0,
912,4885,5161,0,
4920,0,5162,2,
4919,0,5163,2,
4923,4922,5164,0,
4925,873,5165,0,
3599,4925,5166,0,
4891,0,5167,2,
4930,0,5168,2,
4928,0,5169,2,
912,4898,5170,0,
3176,4929,5171,0,
4931,0,5172,2,
4927,0,5173,2,
4945,0,5174,2,
4937,0,5175,2,
4713,4939,5176,0,
4940,4716,5177,0,
368,4901,5178,0,
927,4885,5179,0,
4255,4942,5180,0,
4946,0,5181,2,
4947,0,5182,2,
4943,0,5183,2,
4944,0,5184,2,
367,4901,5185,0,
4952,4953,5186,0,
4951,0,5187,2,
927,4898,5188,0,
4954,885,5189,0,
4957,0,5190,2,
4956,0,5191,2,
4955,0,5192,2,
4959,0,5193,2,
4729,4958,5194,0,
654,4901,5195,0,
380,4885,5196,0,
4966,0,5197,2,
284,4901,5198,0,
4965,0,5199,2,
4964,4735,5200,0,
4970,0,5201,2,
4969,3926,5202,0,
4968,0,5203,2,
4971,103,5204,0,
285,4901,5205,0,
4975,0,5206,2,
4974,0,5207,2,
380,4898,5208,0,
4977,4979,5209,0,
4980,3657,5210,0,
4971,0,5211,2,
658,4901,5212,0,
4982,0,5213,2,
4984,0,5214,2,
4981,0,5215,2,
4748,4985,5216,0,
4986,0,5217,2,
4987,0,5218,2,
656,4901,5219,0,
4988,0,5220,2,
4989,0,5221,2,
4871,0,5222,2,
4754,4992,5223,0,
4991,4477,5224,0,
4993,4272,5225,0,
4996,0,5226,2,
4998,0,5227,2,
4995,4757,5228,0,
4994,0,5229,2,
377,4901,5230,0,
5000,3681,5231,0,
5001,0,5232,2,
5002,4138,5233,0,
5003,0,5234,2,
1569,4901,5235,0,
5007,5006,5236,0,
926,4901,5237,0,
5008,0,5238,2,
5009,0,5239,2,
5010,3683,5240,0,
5011,0,5241,2,
5012,0,5242,2,
661,4901,5243,0,
5014,0,5244,2,
5015,0,5245,2,
5016,0,5246,2,
5017,0,5247,2,
1629,4901,5248,0,
5019,5018,5249,1,
5018,0,5250,2,
381,4901,5251,0,
5020,0,5252,2,
5022,0,5253,2,
5021,0,5254,2,
4772,5023,5255,0,
4870,0,5256,2,
4774,5024,5257,0,
265,4901,5258,0,
5025,0,5259,2,
5026,3703,5260,0,
5027,4161,5261,0,
5028,4292,5262,0,
5029,3725,5263,0,
4500,4954,5264,0,
3728,5030,5265,0,
5031,4400,5266,0,
5032,3734,5267,0,
5033,3736,5268,0,
5034,3989,5269,0,
5035,0,5270,2,
5036,2807,5271,0,
5039,4608,5272,0,
5040,1461,5273,0,
5041,4002,5274,0,
5037,0,5275,2,
5042,4412,5276,0,
5043,4612,5277,0,
5044,0,5278,2,
5045,2006,5279,0,
5047,4314,5280,0,
5048,4185,5281,0,
5133,4050,5282,0,
4617,5049,5283,0,
5050,4020,5284,0,
5051,3781,5285,0,
4422,5052,5286,0,
5053,4523,5287,0,
5054,4028,5288,0,
5055,3792,5289,0,
5056,4029,5290,0,
3567,4912,5291,0,
103,4901,5292,0,
5057,3434,5293,0,
5059,4032,5294,0,
5058,4031,5295,0,
5060,2079,5296,0,
5061,3441,5297,0,
5062,4531,5298,0,
5063,3802,5299,0,
382,4901,5300,0,
283,4885,5301,0,
5064,4637,5302,0,
5069,5068,5303,0,
373,4885,5304,0,
5066,4204,5305,0,
5070,4827,5306,0,
123,5071,5307,0,
5075,5076,5308,0,
5077,0,5309,2,
5078,4040,5310,0,
5080,4833,5311,0,
5083,0,5312,2,
117,5072,5313,0,
5085,4838,5314,0,
283,4898,5315,0,
5087,5086,5316,0,
373,4898,5317,0,
5090,3455,5318,0,
4843,5089,5319,0,
4898,0,5320,2,
4848,5091,5321,0,
5093,0,5322,2,
5097,0,5323,2,
5095,5096,5324,0,
5092,0,5325,2,
5098,0,5326,2,
5100,0,5327,2,
5102,3461,5328,0,
267,4901,5329,0,
5105,0,5330,2,
5103,0,5331,2,
5104,0,5332,2,
204,4901,5333,0,
5107,0,5334,2,
5106,0,5335,2,
5108,0,5336,2,
406,4901,5337,0,
5109,5110,5338,0,
5111,3814,5339,0,
5112,0,5340,2,
5114,0,5341,2,
5113,0,5342,2,
5115,0,5343,2,
5118,4656,5344,0,
5116,4860,5345,0,
5120,0,5346,2,
5119,0,5347,2,
655,4901,5348,0,
5122,5123,5349,0,
371,4901,5350,0,
369,4898,5351,0,
5126,0,5352,2,
5125,0,5353,2,
5124,0,5354,2,
372,4901,5355,0,
5127,0,5356,2,
5129,0,5357,2,
5128,0,5358,2,
4867,5130,5359,0,
670,4901,5360,0,
5040,3780,5361,0,
5132,0,5362,2,
386,4901,5363,0,
286,4901,5364,0,
5257,0,5365,2,
5364,0,5366,2,
670,5222,5367,0,
5137,4664,5368,0,
5138,0,5369,2,
5139,2374,5370,0,
5142,0,5371,2,
4891,5143,5372,0,
5144,2400,5373,0,
5145,4881,5374,0,
5148,4900,5375,0,
5146,0,5376,2,
5151,5143,5377,0,
5150,0,5378,2,
5152,0,5379,2,
4901,5153,5380,1,
5155,3582,5381,0,
5158,4457,5382,0,
5156,4915,5383,0,
5160,3588,5384,0,
5153,0,5385,2,
5161,0,5386,2,
5163,5162,5387,0,
4557,5166,5388,0,
4558,5165,5389,0,
4933,5171,5390,0,
5170,0,5391,2,
5168,4934,5392,0,
5169,5172,5393,0,
5175,3614,5394,0,
5178,0,5395,2,
5183,5184,5396,0,
5180,4111,5397,0,
5179,0,5398,2,
5185,0,5399,2,
5189,2546,5400,0,
5188,0,5401,2,
5191,5190,5402,0,
5193,4961,5403,0,
5195,0,5404,2,
5198,0,5405,2,
5199,5197,5406,0,
5196,0,5407,2,
5202,3640,5408,0,
5205,0,5409,2,
5207,4978,5410,0,
5208,0,5411,2,
5210,0,5412,2,
5214,5213,5413,0,
5212,0,5414,2,
5221,5220,5415,0,
5219,0,5416,2,
5223,3671,5417,0,
368,5174,5418,0,
5224,3948,5419,0,
367,5174,5420,0,
5222,5225,5421,1,
5225,0,5422,2,
5229,5227,5423,0,
5230,0,5424,2,
5231,0,5425,2,
5234,5004,5426,0,
5237,0,5427,2,
5235,0,5428,2,
5233,0,5429,2,
654,5174,5430,0,
284,5174,5431,0,
5240,0,5432,2,
5242,5241,5433,0,
5243,0,5434,2,
285,5174,5435,0,
5282,0,5436,2,
5248,0,5437,2,
5247,5246,5438,0,
658,5174,5439,0,
656,5174,5440,0,
4768,5250,5441,0,
5251,0,5442,2,
5252,4544,5443,1,
377,5174,5444,0,
368,5222,5445,0,
1569,5174,5446,0,
367,5222,5447,0,
5255,3304,5448,0,
5252,4675,5449,0,
5258,0,5450,2,
654,5222,5451,0,
5256,5257,5452,1,
372,5256,5453,0,
661,5174,5454,0,
926,5174,5455,0,
5260,0,5456,2,
655,5256,5457,0,
285,5222,5458,0,
371,5256,5459,0,
368,5256,5460,0,
367,5256,5461,0,
654,5256,5462,0,
5261,0,5463,2,
5262,0,5464,2,
5263,0,5465,2,
5265,5264,5466,0,
5266,3732,5467,0,
5267,0,5468,2,
5268,3355,5469,0,
5269,3356,5470,0,
381,5256,5471,0,
4787,5271,5472,0,
5272,3749,5473,0,
382,5256,5474,0,
265,5256,5475,0,
5273,4175,5476,0,
5037,5274,5477,1,
5274,0,5478,2,
5276,3701,5479,0,
5277,0,5480,2,
5046,5279,5481,0,
5276,2694,5482,0,
5280,4012,5483,0,
5281,4013,5484,0,
5283,4019,5485,0,
5284,0,5486,2,
5285,0,5487,2,
5286,3784,5488,0,
5287,4025,5489,0,
5288,0,5490,2,
5289,0,5491,2,
3435,5290,5492,1,
5290,0,5493,2,
5291,4328,5494,0,
4493,5293,5495,0,
5294,0,5496,2,
5295,0,5497,2,
5296,2898,5498,0,
5297,0,5499,2,
5300,0,5500,2,
5298,4203,5501,0,
5299,0,5502,2,
5301,0,5503,2,
5302,0,5504,2,
5304,0,5505,2,
5303,4822,5506,0,
5305,4038,5507,0,
265,5174,5508,0,
5306,5074,5509,0,
5308,5309,5510,0,
382,5174,5511,0,
5310,0,5512,2,
5311,4205,5513,0,
5136,0,5514,2,
5312,2711,5515,0,
1629,5174,5516,0,
5315,0,5517,2,
4473,5293,5518,0,
5317,0,5519,2,
5318,4535,5520,0,
5324,5325,5521,0,
5323,5322,5522,0,
381,5174,5523,0,
5326,5101,5524,0,
372,5222,5525,0,
661,5222,5526,0,
377,5222,5527,0,
5328,3462,5528,0,
5329,0,5529,2,
5333,0,5530,2,
5331,5330,5531,0,
265,5222,5532,0,
1629,5222,5533,0,
371,5222,5534,0,
1569,5222,5535,0,
382,5222,5536,0,
658,5256,5537,0,
5337,0,5538,2,
655,5222,5539,0,
284,5256,5540,0,
658,5222,5541,0,
656,5222,5542,0,
926,5256,5543,0,
381,5222,5544,0,
5339,3815,5545,0,
5338,4046,5546,0,
926,5222,5547,0,
386,5256,5548,0,
267,5174,5549,0,
286,5256,5550,0,
5342,5343,5551,0,
204,5174,5552,0,
5344,4211,5553,0,
406,5174,5554,0,
285,5256,5555,0,
656,5256,5556,0,
377,5256,5557,0,
5347,5346,5558,0,
284,5222,5559,0,
670,5256,5560,0,
1569,5256,5561,0,
5348,0,5562,2,
371,5174,5563,0,
267,5222,5564,0,
406,5222,5565,0,
5350,0,5566,2,
204,5222,5567,0,
1629,5256,5568,0,
661,5256,5569,0,
5355,0,5570,2,
5351,0,5571,2,
655,5174,5572,0,
372,5174,5573,0,
5353,5354,5574,0,
5360,0,5575,2,
286,5174,5576,0,
386,5222,5577,0,
204,5256,5578,0,
386,5174,5579,0,
286,5222,5580,0,
5361,4538,5581,0,
5256,267,5582,0,
5135,5134,5583,0,
406,5256,5584,0,
5363,0,5585,2,
670,5174,5586,0,
5276,4594,5587,0,
5587,4341,5588,0,
5408,3649,5589,0,
5417,4443,5590,1,
5368,0,5591,2,
369,5369,5592,0,
5370,0,5593,2,
4892,5371,5594,0,
375,5369,5595,0,
5372,0,5596,2,
5373,0,5597,2,
4902,5376,5598,0,
5377,5378,5599,0,
5379,4910,5600,0,
5381,0,5601,2,
5380,0,5602,2,
5382,3591,5603,0,
5384,0,5604,2,
4901,5385,5605,0,
5385,5384,5606,1,
4924,5386,5607,0,
4463,5389,5608,0,
5388,3606,5609,0,
912,5369,5610,0,
5391,4938,5611,0,
5390,3180,5612,0,
5394,0,5613,2,
5395,5182,5614,0,
5397,3623,5615,0,
4949,5398,5616,0,
368,5385,5617,0,
4728,5400,5618,0,
927,5369,5619,0,
5401,4960,5620,0,
367,5385,5621,0,
284,5385,5622,0,
4972,5407,5623,0,
5405,5203,5624,0,
654,5385,5625,0,
5411,4983,5626,0,
5414,5218,5627,0,
285,5385,5628,0,
656,5385,5629,0,
380,5369,5630,0,
5417,0,5631,2,
5419,3676,5632,0,
5418,0,5633,2,
5421,0,5634,2,
5420,0,5635,2,
658,5385,5636,0,
5222,5422,5637,0,
377,5385,5638,0,
5425,4343,5639,1,
5422,5233,5640,1,
5422,5429,5641,0,
5427,5239,5642,0,
5425,4444,5643,0,
1569,5385,5644,0,
5431,0,5645,2,
926,5385,5646,0,
5430,0,5647,2,
5432,4446,5648,1,
5432,4539,5649,0,
5435,0,5650,2,
661,5385,5651,0,
267,5436,5652,0,
5439,0,5653,2,
406,5429,5654,0,
1629,5385,5655,0,
5440,0,5656,2,
5441,0,5657,2,
5442,5253,5658,0,
5444,0,5659,2,
5445,0,5660,2,
5446,0,5661,2,
5436,4870,5662,1,
368,5422,5663,0,
5447,0,5664,2,
5443,0,5665,2,
5436,5256,5666,0,
5448,0,5667,2,
381,5385,5668,0,
368,5429,5669,0,
5449,0,5670,2,
367,5422,5671,0,
5451,0,5672,2,
5452,0,5673,2,
5256,5365,5674,0,
371,5436,5675,0,
5454,0,5676,2,
5453,0,5677,2,
5365,5260,5678,1,
367,5429,5679,0,
654,5422,5680,0,
5455,0,5681,2,
371,5365,5682,0,
372,5456,5683,0,
284,5422,5684,0,
670,5456,5685,0,
372,5365,5686,0,
655,5436,5687,0,
5457,0,5688,2,
5459,0,5689,2,
5458,0,5690,2,
368,5436,5691,0,
654,5429,5692,0,
5365,5456,5693,0,
367,5436,5694,0,
655,5365,5695,0,
5460,0,5696,2,
654,5436,5697,0,
371,5456,5698,0,
368,5365,5699,0,
5461,0,5700,2,
368,5456,5701,0,
655,5456,5702,0,
367,5365,5703,0,
5462,0,5704,2,
5463,5263,5705,1,
5463,5465,5706,0,
5466,4165,5707,0,
5467,0,5708,2,
381,5436,5709,0,
382,5429,5710,0,
5470,0,5711,2,
5469,0,5712,2,
265,5436,5713,0,
5471,0,5714,2,
5472,0,5715,2,
103,5436,5716,0,
5473,0,5717,2,
265,5365,5718,0,
381,5456,5719,0,
1629,5456,5720,0,
382,5436,5721,0,
381,5365,5722,0,
5474,0,5723,2,
5475,0,5724,2,
5476,4409,5725,0,
5256,5477,5726,1,
382,5365,5727,0,
5478,5275,5728,0,
5256,5477,5729,0,
5479,4490,5730,0,
5365,5277,5731,1,
103,5456,5732,0,
5277,5365,5733,0,
5481,3765,5734,0,
4515,5482,5735,0,
5483,0,5736,2,
5484,0,5737,2,
204,5436,5738,0,
406,5456,5739,0,
5485,0,5740,2,
5486,124,5741,1,
5487,124,5742,1,
124,5487,5743,0,
5488,0,5744,2,
124,5486,5745,0,
5489,0,5746,2,
382,5385,5747,0,
5491,5288,5748,1,
2708,5493,5749,0,
5492,5292,5750,1,
5292,5492,5751,0,
5494,4631,5752,0,
4198,5495,5753,0,
5491,5490,5754,0,
5497,5288,5755,1,
5496,5153,5756,1,
5496,5385,5757,0,
5288,5497,5758,0,
4633,5498,5759,0,
265,5385,5760,0,
5501,3803,5761,0,
5065,5503,5762,0,
283,5369,5763,0,
5508,0,5764,2,
5073,5505,5765,0,
384,5369,5766,0,
5507,0,5767,2,
5511,0,5768,2,
5515,0,5769,2,
5517,5088,5770,0,
5516,0,5771,2,
5518,2158,5772,0,
5519,5094,5773,0,
5520,0,5774,2,
5513,0,5775,2,
5524,5327,5776,0,
5523,0,5777,2,
926,5422,5778,0,
267,5385,5779,0,
658,5422,5780,0,
5525,0,5781,2,
5526,0,5782,2,
1569,5429,5783,0,
658,5436,5784,0,
5528,0,5785,2,
5527,0,5786,2,
284,5436,5787,0,
926,5429,5788,0,
661,5422,5789,0,
381,5422,5790,0,
656,5429,5791,0,
372,5422,5792,0,
5529,5334,5793,0,
5532,0,5794,2,
5533,0,5795,2,
377,5422,5796,0,
658,5429,5797,0,
1629,5429,5798,0,
926,5436,5799,0,
5534,0,5800,2,
5535,0,5801,2,
204,5385,5802,0,
381,5429,5803,0,
265,5422,5804,0,
377,5436,5805,0,
5536,0,5806,2,
5537,0,5807,2,
372,5429,5808,0,
371,5422,5809,0,
285,5436,5810,0,
661,5429,5811,0,
1629,5422,5812,0,
285,5422,5813,0,
284,5429,5814,0,
5540,0,5815,2,
5539,0,5816,2,
377,5429,5817,0,
1569,5422,5818,0,
5541,0,5819,2,
661,5436,5820,0,
406,5385,5821,0,
5542,0,5822,2,
655,5422,5823,0,
371,5429,5824,0,
386,5436,5825,0,
670,5429,5826,0,
5543,0,5827,2,
285,5429,5828,0,
656,5422,5829,0,
5544,0,5830,2,
5546,0,5831,2,
286,5436,5832,0,
5545,0,5833,2,
5547,0,5834,2,
265,5429,5835,0,
382,5422,5836,0,
5548,0,5837,2,
373,5369,5838,0,
5340,5546,5839,1,
372,5436,5840,0,
670,5436,5841,0,
386,5365,5842,0,
655,5429,5843,0,
5549,0,5844,2,
5550,0,5845,2,
285,5456,5846,0,
656,5436,5847,0,
656,5365,5848,0,
284,5456,5849,0,
284,5365,5850,0,
285,5365,5851,0,
656,5456,5852,0,
377,5456,5853,0,
658,5365,5854,0,
1569,5365,5855,0,
1569,5436,5856,0,
5554,0,5857,2,
5552,0,5858,2,
5555,0,5859,2,
367,5456,5860,0,
5556,0,5861,2,
5553,0,5862,2,
654,5365,5863,0,
654,5456,5864,0,
5557,0,5865,2,
386,5456,5866,0,
286,5365,5867,0,
286,5429,5868,0,
670,5422,5869,0,
5559,0,5870,2,
658,5456,5871,0,
377,5365,5872,0,
371,5385,5873,0,
5561,0,5874,2,
1629,5365,5875,0,
661,5456,5876,0,
1569,5456,5877,0,
5560,0,5878,2,
372,5385,5879,0,
286,5456,5880,0,
670,5365,5881,0,
5563,0,5882,2,
655,5385,5883,0,
267,5422,5884,0,
204,5422,5885,0,
267,5429,5886,0,
926,5456,5887,0,
661,5365,5888,0,
926,5365,5889,0,
1629,5436,5890,0,
5569,0,5891,2,
5568,0,5892,2,
5564,0,5893,2,
5567,0,5894,2,
5565,0,5895,2,
5570,5358,5896,0,
5571,5131,5897,0,
5573,0,5898,2,
5572,0,5899,2,
286,5385,5900,0,
406,5422,5901,0,
670,5385,5902,0,
204,5429,5903,0,
267,5365,5904,0,
406,5436,5905,0,
5578,0,5906,2,
5577,0,5907,2,
5576,0,5908,2,
386,5429,5909,0,
386,5422,5910,0,
267,5456,5911,0,
204,5365,5912,0,
286,5422,5913,0,
5579,0,5914,2,
5580,0,5915,2,
5581,3817,5916,0,
204,5456,5917,0,
5367,0,5918,2,
406,5365,5919,0,
5583,5585,5920,0,
5584,0,5921,2,
5586,0,5922,2,
386,5385,5923,0,
5582,0,5924,2,
5916,3473,5925,0,
5917,0,5926,2,
5919,0,5927,2,
5923,0,5928,2,
5463,5615,5929,1,
5591,4875,5930,0,
5592,0,5931,2,
5593,121,5932,1,
5594,4894,5933,0,
5595,0,5934,2,
5596,5147,5935,0,
115,5597,5936,0,
5598,4911,5937,0,
121,5593,5938,0,
5157,5600,5939,0,
5601,106,5940,1,
5603,3144,5941,0,
5605,0,5942,2,
5606,0,5943,2,
5607,4926,5944,0,
5385,5604,5945,0,
106,5601,5946,0,
5609,3607,5947,0,
5608,3904,5948,0,
5610,0,5949,2,
5176,5611,5950,0,
5612,0,5951,2,
5613,111,5952,1,
5616,4950,5953,0,
5617,0,5954,2,
111,5613,5955,0,
5615,0,5956,2,
5194,5620,5957,0,
5619,0,5958,2,
368,5604,5959,0,
5618,3633,5960,0,
5621,0,5961,2,
5622,0,5962,2,
367,5604,5963,0,
5623,4973,5964,0,
5625,0,5965,2,
5589,0,5966,2,
654,5604,5967,0,
5216,5626,5968,0,
284,5604,5969,0,
285,5604,5970,0,
5628,0,5971,2,
5629,0,5972,2,
5630,0,5973,2,
5631,4543,5974,0,
4999,5632,5975,1,
5632,0,5976,2,
5636,0,5977,2,
5637,0,5978,2,
658,5604,5979,0,
656,5604,5980,0,
5640,0,5981,2,
5638,0,5982,2,
5639,0,5983,2,
377,5604,5984,0,
5641,0,5985,2,
5643,0,5986,2,
5644,0,5987,2,
5646,0,5988,2,
5648,0,5989,2,
926,5604,5990,0,
1569,5604,5991,0,
5649,0,5992,2,
5651,0,5993,2,
661,5604,5994,0,
5655,0,5995,2,
5652,0,5996,2,
5654,0,5997,2,
5662,0,5998,2,
5663,0,5999,2,
1629,5604,6000,0,
5666,0,6001,2,
5668,0,6002,2,
5667,2708,6003,1,
5671,0,6004,2,
5669,0,6005,2,
5674,0,6006,2,
5675,0,6007,2,
5679,0,6008,2,
5680,0,6009,2,
5678,0,6010,2,
5682,0,6011,2,
5683,0,6012,2,
5687,0,6013,2,
5686,0,6014,2,
5685,0,6015,2,
5684,0,6016,2,
5692,0,6017,2,
5691,0,6018,2,
5693,0,6019,2,
5694,0,6020,2,
5699,0,6021,2,
5697,0,6022,2,
5698,0,6023,2,
5695,0,6024,2,
5702,0,6025,2,
5703,0,6026,2,
5701,0,6027,2,
5705,0,6028,2,
5706,0,6029,2,
5707,0,6030,2,
5707,5222,6031,0,
5710,0,6032,2,
5709,0,6033,2,
5712,5035,6034,1,
5713,0,6035,2,
5712,5270,6036,0,
5715,5037,6037,1,
5718,0,6038,2,
5719,0,6039,2,
5720,0,6040,2,
5722,0,6041,2,
5721,0,6042,2,
5037,5715,6043,0,
5725,4000,6044,0,
5727,0,6045,2,
5729,0,6046,2,
5728,0,6047,2,
5730,4417,6048,0,
5733,0,6049,2,
5734,0,6050,2,
5735,0,6051,2,
103,5736,6052,0,
670,5604,6053,0,
5774,5310,6054,1,
103,5604,6055,0,
5740,124,6056,1,
124,5740,6057,0,
5743,0,6058,2,
5745,0,6059,2,
5746,2708,6060,1,
2708,5746,6061,0,
265,5604,6062,0,
5747,0,6063,2,
5748,0,6064,2,
5749,0,6065,2,
5751,0,6066,2,
5753,3797,6067,0,
5752,4199,6068,0,
5756,0,6069,2,
5754,0,6070,2,
382,5604,6071,0,
5757,0,6072,2,
5758,0,6073,2,
5759,0,6074,2,
381,5604,6075,0,
2708,5667,6076,0,
5760,0,6077,2,
5502,5759,6078,1,
5761,0,6079,2,
5762,5067,6080,0,
5763,0,6081,2,
5761,5174,6082,0,
5765,5079,6083,0,
5766,0,6084,2,
5767,5513,6085,1,
123,5769,6086,0,
5319,5770,6087,0,
5772,3459,6088,0,
5769,123,6089,1,
5321,5773,6090,0,
5767,5775,6091,0,
5310,5774,6092,0,
5778,0,6093,2,
5779,0,6094,2,
5780,0,6095,2,
5784,0,6096,2,
5783,0,6097,2,
5785,5261,6098,1,
5790,0,6099,2,
5261,5785,6100,0,
5788,0,6101,2,
5789,0,6102,2,
5791,0,6103,2,
5792,0,6104,2,
5787,0,6105,2,
5796,0,6106,2,
5798,0,6107,2,
5797,0,6108,2,
5799,0,6109,2,
267,5604,6110,0,
5803,0,6111,2,
5804,0,6112,2,
5802,0,6113,2,
5705,5589,6114,1,
5805,0,6115,2,
5810,0,6116,2,
5809,0,6117,2,
5808,0,6118,2,
5811,0,6119,2,
406,5604,6120,0,
5812,0,6121,2,
5817,0,6122,2,
5818,0,6123,2,
204,5604,6124,0,
5814,0,6125,2,
5813,0,6126,2,
5821,0,6127,2,
5820,0,6128,2,
5828,0,6129,2,
5826,0,6130,2,
5825,0,6131,2,
5829,0,6132,2,
5823,0,6133,2,
5824,0,6134,2,
5831,5545,6135,1,
5546,5833,6136,0,
5832,0,6137,2,
5836,0,6138,2,
5835,0,6139,2,
5838,0,6140,2,
5839,0,6141,2,
5840,0,6142,2,
5843,0,6143,2,
5842,0,6144,2,
5841,0,6145,2,
5340,5831,6146,0,
5597,115,6147,1,
5847,0,6148,2,
5850,0,6149,2,
5848,0,6150,2,
5846,0,6151,2,
5849,0,6152,2,
5851,0,6153,2,
5863,0,6154,2,
5860,0,6155,2,
5856,0,6156,2,
5852,0,6157,2,
5853,0,6158,2,
5855,0,6159,2,
5854,0,6160,2,
5864,0,6161,2,
372,5604,6162,0,
5872,0,6163,2,
5871,0,6164,2,
5866,0,6165,2,
5873,0,6166,2,
5869,0,6167,2,
5867,0,6168,2,
5868,0,6169,2,
5879,0,6170,2,
371,5604,6171,0,
5877,0,6172,2,
5876,0,6173,2,
5875,0,6174,2,
5880,0,6175,2,
5890,0,6176,2,
655,5604,6177,0,
5887,0,6178,2,
5883,0,6179,2,
5889,0,6180,2,
5881,0,6181,2,
5888,0,6182,2,
5884,0,6183,2,
5885,0,6184,2,
5886,0,6185,2,
5735,4615,6186,0,
386,5604,6187,0,
5900,0,6188,2,
286,5604,6189,0,
5359,5897,6190,0,
5901,0,6191,2,
5903,0,6192,2,
5904,0,6193,2,
5905,0,6194,2,
5902,0,6195,2,
5913,0,6196,2,
5909,0,6197,2,
5910,0,6198,2,
5912,0,6199,2,
5911,0,6200,2,
5738,0,6201,2,
5739,0,6202,2,
6202,385,6203,0,
670,5966,6204,0,
5930,0,6205,2,
5931,4884,6206,0,
5932,0,6207,2,
4666,5930,6208,1,
157,5933,6209,1,
5934,4904,6210,0,
5935,0,6211,2,
158,5937,6212,1,
158,5939,6213,1,
5604,5941,6214,1,
5941,0,6215,2,
136,5944,6216,1,
5945,0,6217,2,
5948,0,6218,2,
5947,0,6219,2,
5174,5948,6220,1,
5949,4941,6221,0,
136,5950,6222,1,
5951,5615,6223,1,
140,5953,6224,1,
5954,5399,6225,0,
5951,5956,6226,0,
140,5957,6227,1,
5956,5960,6228,1,
5959,0,6229,2,
5958,4963,6230,0,
5960,0,6231,2,
5962,5409,6232,0,
5963,0,6233,2,
5964,103,6234,0,
5967,0,6235,2,
5968,103,6236,0,
5966,4871,6237,1,
5969,0,6238,2,
5970,0,6239,2,
5966,5222,6240,0,
5973,4997,6241,0,
4758,5976,6242,0,
5974,5975,6243,0,
5977,5424,6244,0,
5980,0,6245,2,
5979,0,6246,2,
5975,5974,6247,1,
368,5951,6248,0,
5984,0,6249,2,
5429,5925,6250,1,
5925,0,6251,2,
368,5956,6252,0,
367,5951,6253,0,
5988,5434,6254,0,
5990,0,6255,2,
5436,5925,6256,1,
5991,0,6257,2,
654,5951,6258,0,
367,5956,6259,0,
284,5951,6260,0,
5994,0,6261,2,
284,5956,6262,0,
285,5951,6263,0,
654,5956,6264,0,
368,5966,6265,0,
367,5966,6266,0,
656,5951,6267,0,
285,5956,6268,0,
658,5951,6269,0,
654,5966,6270,0,
656,5956,6271,0,
284,5966,6272,0,
5999,5664,6273,0,
6000,0,6274,2,
377,5951,6275,0,
658,5956,6276,0,
6003,4548,6277,1,
6002,5450,6278,0,
6005,6004,6279,0,
5677,6007,6280,0,
1569,5951,6281,0,
377,5956,6282,0,
656,5966,6283,0,
6012,6011,6284,0,
6014,5689,6285,0,
6016,5690,6286,0,
5696,6020,6287,0,
6021,5700,6288,0,
6027,6026,6289,0,
6028,5966,6290,0,
6030,4871,6291,1,
6031,0,6292,2,
6030,5469,6293,1,
5469,6030,6294,0,
6034,5233,6295,1,
6034,0,6296,2,
5714,6035,6297,0,
6036,0,6298,2,
6037,5716,6299,1,
6039,6038,6300,0,
6041,5724,6301,0,
5716,6037,6302,0,
6043,0,6303,2,
6044,0,6304,2,
6047,6046,6305,0,
5480,6048,6306,1,
6048,5480,6307,0,
5735,6048,6308,1,
6051,6052,6309,1,
6052,6051,6310,0,
6198,5915,6311,0,
6186,4258,6312,0,
6079,4945,6313,1,
6067,3799,6314,0,
6197,6196,6315,0,
6200,6199,6316,0,
6057,0,6317,2,
6060,4662,6318,0,
6061,0,6319,2,
6062,0,6320,2,
103,6064,6321,0,
6065,6066,6322,0,
6068,0,6323,2,
6071,0,6324,2,
6003,4661,6325,0,
6074,6068,6326,1,
6076,0,6327,2,
6075,0,6328,2,
6060,4547,6329,1,
148,6080,6330,1,
661,5956,6331,0,
1629,5951,6332,0,
371,5951,6333,0,
372,5956,6334,0,
6082,0,6335,2,
655,5951,6336,0,
371,5956,6337,0,
6078,0,6338,2,
382,5951,6339,0,
265,5956,6340,0,
5506,6081,6341,0,
6079,5507,6342,1,
5502,6074,6343,0,
159,6083,6344,1,
5507,6079,6345,0,
381,5951,6346,0,
926,5966,6347,0,
103,5951,6348,0,
6084,5084,6349,0,
1629,5956,6350,0,
926,5951,6351,0,
1569,5956,6352,0,
658,5966,6353,0,
655,5956,6354,0,
382,5956,6355,0,
381,5966,6356,0,
372,5966,6357,0,
661,5951,6358,0,
926,5956,6359,0,
148,6087,6360,1,
4438,6088,6361,0,
6085,0,6362,2,
381,5956,6363,0,
265,5951,6364,0,
159,6090,6365,1,
1629,5966,6366,0,
371,5966,6367,0,
6092,0,6368,2,
6091,0,6369,2,
1569,5966,6370,0,
6093,5782,6371,0,
6095,5786,6372,0,
382,5966,6373,0,
655,5966,6374,0,
5261,5956,6375,0,
6094,5530,6376,0,
6099,5794,6377,0,
6101,6102,6378,0,
6104,5800,6379,0,
6100,0,6380,2,
6098,5960,6381,1,
6110,0,6382,2,
6108,6106,6383,0,
6111,6112,6384,0,
377,5966,6385,0,
5807,6115,6386,0,
5815,6116,6387,0,
6118,6117,6388,0,
6120,0,6389,2,
6124,0,6390,2,
265,5966,6391,0,
6125,6126,6392,0,
5827,6128,6393,0,
661,5966,6394,0,
5837,6137,6395,0,
6136,0,6396,2,
6140,5117,6397,0,
267,5951,6398,0,
6144,5845,6399,0,
6146,0,6400,2,
285,5966,6401,0,
6149,5859,6402,0,
6152,6153,6403,0,
204,5956,6404,0,
406,5951,6405,0,
267,5966,6406,0,
406,5956,6407,0,
6160,5865,6408,0,
6162,0,6409,2,
204,5966,6410,0,
204,5951,6411,0,
267,5956,6412,0,
6165,6168,6413,0,
406,5966,6414,0,
6164,6163,6415,0,
6171,0,6416,2,
6170,5566,6417,0,
372,5951,6418,0,
6185,6184,6419,0,
6183,5894,6420,0,
6177,0,6421,2,
6180,5891,6422,0,
6178,6182,6423,0,
6187,0,6424,2,
286,5966,6425,0,
670,5951,6426,0,
286,5951,6427,0,
386,5956,6428,0,
286,5956,6429,0,
6189,0,6430,2,
157,6190,6431,1,
386,5951,6432,0,
386,5966,6433,0,
6193,5906,6434,0,
5924,6201,6435,0,
670,5956,6436,0,
5928,5366,6437,0,
6053,0,6438,2,
6436,0,6439,2,
6224,5955,6440,1,
4877,6205,6441,0,
5141,6205,6442,0,
5140,6206,6443,0,
369,6208,6444,0,
5936,6209,6445,0,
6211,5378,6446,0,
5154,6210,6447,0,
5938,6212,6448,0,
375,6208,6449,0,
6212,5938,6450,1,
6214,0,6451,2,
5604,6215,6452,0,
6216,5946,6453,1,
6215,5947,6454,1,
5174,6218,6455,0,
6215,6219,6456,0,
6218,5612,6457,1,
5946,6216,6458,0,
6219,4945,6459,1,
6219,5174,6460,0,
5177,6221,6461,0,
912,6208,6462,0,
6218,5951,6463,0,
6223,0,6464,2,
6226,0,6465,2,
5955,6224,6466,0,
6228,0,6467,2,
5200,6230,6468,0,
6229,5961,6469,0,
927,6208,6470,0,
5956,6231,6471,0,
368,6215,6472,0,
6231,5589,6473,1,
368,6219,6474,0,
367,6215,6475,0,
6234,0,6476,2,
6234,5211,6477,0,
6231,5966,6478,0,
284,6215,6479,0,
6237,0,6480,2,
6238,5971,6481,0,
6220,0,6482,2,
6240,0,6483,2,
367,6219,6484,0,
654,6215,6485,0,
368,6218,6486,0,
654,6219,6487,0,
5228,6241,6488,0,
380,6208,6489,0,
6242,0,6490,2,
6243,0,6491,2,
285,6215,6492,0,
284,6219,6493,0,
6246,5982,6494,0,
658,6215,6495,0,
656,6215,6496,0,
285,6219,6497,0,
367,6218,6498,0,
6248,0,6499,2,
6250,0,6500,2,
284,6218,6501,0,
654,6218,6502,0,
5429,6251,6503,0,
656,6219,6504,0,
377,6215,6505,0,
658,6219,6506,0,
6252,0,6507,2,
6253,0,6508,2,
6255,5993,6509,0,
368,6231,6510,0,
6256,0,6511,2,
6259,0,6512,2,
285,6218,6513,0,
6258,0,6514,2,
1569,6215,6515,0,
377,6219,6516,0,
204,6251,6517,0,
6260,0,6518,2,
926,6215,6519,0,
656,6218,6520,0,
367,6231,6521,0,
6263,0,6522,2,
6262,0,6523,2,
6264,0,6524,2,
6265,0,6525,2,
658,6218,6526,0,
1569,6219,6527,0,
654,6231,6528,0,
6266,0,6529,2,
284,6231,6530,0,
377,6218,6531,0,
6251,5436,6532,0,
6267,0,6533,2,
6268,0,6534,2,
6269,0,6535,2,
285,6231,6536,0,
6270,0,6537,2,
6271,0,6538,2,
6272,0,6539,2,
661,6215,6540,0,
926,6219,6541,0,
1569,6218,6542,0,
6276,0,6543,2,
6275,0,6544,2,
6277,0,6545,2,
926,6218,6546,0,
1629,6219,6547,0,
655,6251,6548,0,
1629,6215,6549,0,
661,6219,6550,0,
368,6251,6551,0,
658,6231,6552,0,
6312,0,6553,2,
6281,0,6554,2,
6282,0,6555,2,
6283,0,6556,2,
367,6251,6557,0,
654,6251,6558,0,
6290,0,6559,2,
265,6251,6560,0,
6293,5422,6561,0,
6293,5225,6562,1,
6294,0,6563,2,
382,6251,6564,0,
6296,5429,6565,0,
6251,5037,6566,1,
5037,6251,6567,0,
6302,0,6568,2,
6305,0,6569,2,
6305,5731,6570,1,
5732,6306,6571,0,
6307,0,6572,2,
6306,5732,6573,1,
6309,3769,6574,0,
6309,0,6575,2,
6310,0,6576,2,
6251,406,6577,0,
6318,0,6578,2,
381,6215,6579,0,
265,6215,6580,0,
6322,0,6581,2,
5756,6322,6582,1,
381,6219,6583,0,
6314,0,6584,2,
6055,6314,6585,1,
5759,6323,6586,0,
6325,0,6587,2,
6328,6077,6588,0,
6055,6314,6589,0,
6329,0,6590,2,
103,6215,6591,0,
5504,6314,6592,1,
283,6208,6593,0,
926,6231,6594,0,
381,6218,6595,0,
382,6219,6596,0,
655,6218,6597,0,
381,6231,6598,0,
6332,0,6599,2,
372,6231,6600,0,
6334,0,6601,2,
6333,0,6602,2,
6331,0,6603,2,
103,6218,6604,0,
5307,6330,6605,0,
6337,0,6606,2,
6340,0,6607,2,
6314,5504,6608,0,
6336,0,6609,2,
148,6341,6610,1,
6339,0,6611,2,
265,6218,6612,0,
6343,0,6613,2,
384,6208,6614,0,
103,6219,6615,0,
661,6231,6616,0,
6346,0,6617,2,
6344,5313,6618,1,
6345,0,6619,2,
661,6218,6620,0,
377,6231,6621,0,
6085,6348,6622,1,
5314,6349,6623,0,
6350,0,6624,2,
6347,0,6625,2,
6353,0,6626,2,
6352,0,6627,2,
265,6231,6628,0,
371,6231,6629,0,
6351,0,6630,2,
6330,6086,6631,1,
6354,0,6632,2,
6357,0,6633,2,
6356,0,6634,2,
6355,0,6635,2,
1629,6218,6636,0,
6359,0,6637,2,
6358,0,6638,2,
382,6218,6639,0,
6360,0,6640,2,
6362,5951,6641,0,
6361,3810,6642,0,
265,6219,6643,0,
382,6215,6644,0,
6363,0,6645,2,
6364,0,6646,2,
5313,6344,6647,0,
655,6231,6648,0,
6366,0,6649,2,
6367,0,6650,2,
377,6251,6651,0,
6370,0,6652,2,
285,6251,6653,0,
6098,6231,6654,0,
6375,0,6655,2,
6374,0,6656,2,
661,6251,6657,0,
6373,0,6658,2,
6381,0,6659,2,
1569,6251,6660,0,
656,6251,6661,0,
926,6251,6662,0,
6382,6113,6663,0,
1569,6231,6664,0,
658,6251,6665,0,
267,6219,6666,0,
204,6215,6667,0,
6385,0,6668,2,
1629,6251,6669,0,
267,6215,6670,0,
372,6251,6671,0,
382,6231,6672,0,
286,6251,6673,0,
284,6251,6674,0,
6391,0,6675,2,
1629,6231,6676,0,
6394,0,6677,2,
670,6251,6678,0,
381,6251,6679,0,
406,6215,6680,0,
204,6219,6681,0,
371,6251,6682,0,
267,6218,6683,0,
204,6218,6684,0,
406,6219,6685,0,
5345,6397,6686,0,
373,6208,6687,0,
6398,0,6688,2,
656,6231,6689,0,
386,6251,6690,0,
267,6231,6691,0,
204,6231,6692,0,
6401,0,6693,2,
6406,0,6694,2,
6405,0,6695,2,
6407,0,6696,2,
655,6219,6697,0,
6404,0,6698,2,
372,6218,6699,0,
406,6231,6700,0,
406,6218,6701,0,
6209,5936,6702,1,
372,6215,6703,0,
6409,6166,6704,0,
655,6215,6705,0,
371,6215,6706,0,
372,6219,6707,0,
371,6219,6708,0,
371,6218,6709,0,
6410,0,6710,2,
6414,0,6711,2,
6411,0,6712,2,
6412,0,6713,2,
6418,0,6714,2,
670,6219,6715,0,
670,6218,6716,0,
386,6218,6717,0,
267,6251,6718,0,
386,6215,6719,0,
670,6231,6720,0,
386,6231,6721,0,
6426,0,6722,2,
6429,0,6723,2,
6428,0,6724,2,
6427,0,6725,2,
6425,0,6726,2,
670,6215,6727,0,
286,6219,6728,0,
6424,6188,6729,0,
286,6218,6730,0,
286,6231,6731,0,
386,6219,6732,0,
286,6215,6733,0,
6433,0,6734,2,
6432,0,6735,2,
6204,0,6736,2,
6488,103,6737,0,
6441,0,6738,2,
6442,0,6739,2,
157,6443,6740,1,
6444,0,6741,2,
158,6447,6742,1,
6446,0,6743,2,
6449,0,6744,2,
6213,6448,6745,1,
6448,6213,6746,0,
5943,6451,6747,0,
6452,0,6748,2,
6454,0,6749,2,
6455,0,6750,2,
6456,0,6751,2,
6457,0,6752,2,
6460,0,6753,2,
136,6461,6754,1,
6459,0,6755,2,
6463,0,6756,2,
6462,0,6757,2,
6227,6466,6758,1,
6466,6227,6759,0,
140,6468,6760,1,
6470,0,6761,2,
6471,0,6762,2,
6472,0,6763,2,
6473,0,6764,2,
6476,4971,6765,1,
6474,0,6766,2,
6475,0,6767,2,
5412,6477,6768,1,
6478,0,6769,2,
6479,0,6770,2,
6477,5412,6771,0,
6485,0,6772,2,
6484,0,6773,2,
6486,0,6774,2,
6487,0,6775,2,
6489,0,6776,2,
6490,6491,6777,0,
6492,0,6778,2,
6493,0,6779,2,
6496,0,6780,2,
6497,0,6781,2,
6495,0,6782,2,
6498,0,6783,2,
6504,0,6784,2,
6501,0,6785,2,
6502,0,6786,2,
6503,0,6787,2,
6505,0,6788,2,
6506,0,6789,2,
6507,6508,6790,0,
6510,0,6791,2,
6516,0,6792,2,
6515,0,6793,2,
6513,0,6794,2,
6519,0,6795,2,
6517,0,6796,2,
6520,0,6797,2,
6521,0,6798,2,
6523,6522,6799,0,
6527,0,6800,2,
6526,0,6801,2,
6528,0,6802,2,
5660,6529,6803,0,
6530,0,6804,2,
6531,0,6805,2,
6532,0,6806,2,
6536,0,6807,2,
6540,0,6808,2,
6541,0,6809,2,
6542,0,6810,2,
6543,6544,6811,0,
6547,0,6812,2,
6546,0,6813,2,
6548,0,6814,2,
6551,0,6815,2,
6549,0,6816,2,
6550,0,6817,2,
6552,0,6818,2,
286,6553,6819,0,
670,6553,6820,0,
6557,0,6821,2,
5456,6553,6822,0,
6558,0,6823,2,
372,6553,6824,0,
371,6553,6825,0,
655,6553,6826,0,
6029,6559,6827,0,
6560,0,6828,2,
6562,0,6829,2,
6561,0,6830,2,
6564,0,6831,2,
6565,0,6832,2,
6567,0,6833,2,
1629,6553,6834,0,
661,6553,6835,0,
6303,6568,6836,0,
6569,5731,6837,0,
6570,0,6838,2,
6571,0,6839,2,
6553,6308,6840,1,
6574,0,6841,2,
103,6576,6842,0,
406,6553,6843,0,
6579,0,6844,2,
6319,6578,6845,0,
6580,0,6846,2,
6583,0,6847,2,
6069,6581,6848,0,
6582,3442,6849,1,
6584,5297,6850,1,
6582,3442,6851,0,
6584,5499,6852,0,
6586,0,6853,2,
6327,6587,6854,0,
6589,0,6855,2,
6592,6591,6856,1,
6597,0,6857,2,
6595,0,6858,2,
6594,0,6859,2,
6596,0,6860,2,
6593,0,6861,2,
6600,0,6862,2,
6598,0,6863,2,
6342,6604,6864,1,
6601,6602,6865,0,
6605,5136,6866,0,
6591,6592,6867,0,
6610,0,6868,2,
6604,6342,6869,0,
6605,0,6870,2,
6608,0,6871,2,
6612,0,6872,2,
6610,5136,6873,0,
6614,0,6874,2,
6616,0,6875,2,
6621,0,6876,2,
6620,0,6877,2,
162,6623,6878,1,
6629,0,6879,2,
6628,0,6880,2,
6636,0,6881,2,
6622,0,6882,2,
6637,6638,6883,0,
6631,0,6884,2,
6639,0,6885,2,
6644,0,6886,2,
6645,6646,6887,0,
6643,0,6888,2,
6365,6647,6889,1,
6641,0,6890,2,
6642,0,6891,2,
6648,0,6892,2,
5781,6650,6893,0,
6651,0,6894,2,
6653,0,6895,2,
6657,0,6896,2,
6654,0,6897,2,
6660,0,6898,2,
6661,0,6899,2,
6662,0,6900,2,
6664,0,6901,2,
6665,0,6902,2,
6667,0,6903,2,
6666,0,6904,2,
6670,0,6905,2,
6669,0,6906,2,
5819,6668,6907,0,
6673,0,6908,2,
6672,0,6909,2,
6674,0,6910,2,
6671,0,6911,2,
6676,0,6912,2,
5830,6675,6913,0,
5834,6677,6914,0,
6678,0,6915,2,
6679,0,6916,2,
6681,0,6917,2,
6680,0,6918,2,
6682,0,6919,2,
284,6553,6920,0,
6647,6365,6921,0,
658,6553,6922,0,
285,6553,6923,0,
159,6686,6924,1,
6684,0,6925,2,
6685,0,6926,2,
6683,0,6927,2,
368,6553,6928,0,
654,6553,6929,0,
367,6553,6930,0,
6687,0,6931,2,
656,6553,6932,0,
6689,0,6933,2,
926,6553,6934,0,
377,6553,6935,0,
6690,0,6936,2,
6692,0,6937,2,
5870,6693,6938,0,
6691,0,6939,2,
386,6553,6940,0,
6699,0,6941,2,
6697,0,6942,2,
1569,6553,6943,0,
6703,0,6944,2,
6700,0,6945,2,
6701,0,6946,2,
6713,6712,6947,0,
6708,0,6948,2,
6706,0,6949,2,
6707,0,6950,2,
6705,0,6951,2,
6709,0,6952,2,
5893,6710,6953,0,
6718,0,6954,2,
6719,0,6955,2,
6720,0,6956,2,
6721,0,6957,2,
6715,0,6958,2,
6717,0,6959,2,
6716,0,6960,2,
204,6553,6961,0,
5907,6726,6962,0,
6724,6725,6963,0,
6728,0,6964,2,
6727,0,6965,2,
6730,0,6966,2,
6733,0,6967,2,
6732,0,6968,2,
6731,0,6969,2,
6577,0,6970,2,
267,6553,6971,0,
6971,0,6972,2,
6369,6890,6973,0,
6738,4881,6974,0,
5374,6739,6975,0,
6740,0,6976,2,
6740,5932,6977,0,
6741,4698,6978,0,
6742,0,6979,2,
6743,5602,6980,0,
6744,4703,6981,0,
6745,0,6982,2,
5940,6742,6983,0,
6217,6748,6984,0,
6220,6750,6985,0,
6753,6750,6986,0,
6757,4724,6987,0,
5204,6760,6988,1,
5204,6760,6989,0,
6761,4744,6990,0,
6763,6233,6991,0,
6766,6767,6992,0,
6770,6239,6993,0,
6737,5590,6994,1,
6771,0,6995,2,
5633,6773,6996,0,
6774,5635,6997,0,
5590,6737,6998,0,
6776,4765,6999,0,
6777,0,7000,2,
5639,6777,7001,1,
6779,6778,7002,0,
5645,6781,7003,0,
6782,6249,7004,0,
6499,6783,7005,0,
6785,5650,7006,0,
6789,6788,7007,0,
6791,6512,7008,0,
5653,6792,7009,0,
6518,6794,7010,0,
5996,6796,7011,0,
6795,6261,7012,0,
6525,6798,7013,0,
6801,5659,7014,0,
6804,6534,7015,0,
6535,6805,7016,0,
6539,6807,7017,0,
6809,6808,7018,0,
6813,5676,7019,0,
5681,6817,7020,0,
6815,6008,7021,0,
6818,6555,7022,0,
6819,0,7023,2,
6820,0,7024,2,
6018,6821,7025,0,
6824,0,7026,2,
6825,0,7027,2,
6826,0,7028,2,
6827,0,7029,2,
6033,6828,7030,0,
6563,6830,7031,0,
6298,6832,7032,0,
6834,0,7033,2,
6835,0,7034,2,
5726,6836,7035,1,
6836,0,7036,2,
6837,0,7037,2,
6572,6839,7038,0,
6842,0,7039,2,
6822,0,7040,2,
6968,6967,7041,0,
6435,6970,7042,0,
6844,6320,7043,0,
5750,6845,7044,1,
6845,0,7045,2,
6848,0,7046,2,
6849,2708,7047,1,
6847,6846,7048,0,
6850,0,7049,2,
6849,3435,7050,0,
6851,0,7051,2,
6852,0,7052,2,
6854,0,7053,2,
6329,6854,7054,1,
6859,6603,7055,0,
6858,5764,7056,0,
5509,6861,7057,0,
6863,6607,7058,0,
6867,0,7059,2,
6862,6606,7060,0,
6866,0,7061,2,
6850,6615,7062,1,
6870,5514,7063,0,
6869,0,7064,2,
6873,0,7065,2,
6874,4840,7066,0,
6617,6872,7067,0,
6625,6875,7068,0,
6878,5320,7069,0,
6630,6877,7070,0,
6626,6876,7071,0,
6634,6880,7072,0,
6633,6879,7073,0,
6089,6878,7074,0,
5777,6888,7075,0,
6891,5310,7076,1,
6891,5512,7077,0,
6096,6894,7078,0,
6105,6895,7079,0,
6380,6897,7080,0,
6109,6896,7081,0,
6900,6119,7082,0,
6902,6122,7083,0,
6904,6903,7084,0,
6905,6390,7085,0,
6911,6134,7086,0,
6910,6129,7087,0,
6131,6908,7088,0,
6827,6291,7089,1,
6916,6139,7090,0,
5844,6917,7091,0,
6142,6919,7092,0,
6147,6921,7093,1,
6920,0,7094,2,
6928,0,7095,2,
6927,5858,7096,0,
6921,6147,7097,0,
6923,0,7098,2,
6922,0,7099,2,
6688,6925,7100,0,
6929,0,7101,2,
6930,0,7102,2,
6931,4864,7103,0,
6932,0,7104,2,
6939,6698,7105,0,
6694,6937,7106,0,
6936,6169,7107,0,
6935,0,7108,2,
6934,0,7109,2,
6940,0,7110,2,
6943,0,7111,2,
6941,5882,7112,0,
6944,6416,7113,0,
6714,6952,7114,0,
6950,6949,7115,0,
5898,6948,7116,0,
6957,6723,7117,0,
6955,6430,7118,0,
6954,6192,7119,0,
6959,5908,7120,0,
5914,6964,7121,0,
6961,0,7122,2,
6843,0,7123,2,
6735,6966,7124,0,
6734,6969,7125,0,
4672,6974,7126,1,
6976,6207,7127,0,
6975,0,7128,2,
6977,0,7129,2,
5159,6978,7130,0,
5940,6979,7131,1,
5164,6981,7132,0,
6983,0,7133,2,
6985,0,7134,2,
6986,6756,7135,0,
5186,6987,7136,0,
6466,6988,7137,0,
6988,6759,7138,1,
6989,0,7139,2,
5209,6990,7140,0,
6998,0,7141,2,
5236,6999,7142,0,
5983,7000,7143,0,
7023,669,7144,0,
6023,7026,7145,0,
7027,665,7146,0,
7029,6291,7147,0,
6295,7031,7148,1,
7031,0,7149,2,
7032,0,7150,2,
7032,6566,7151,1,
7034,1545,7152,0,
7033,1546,7153,0,
7035,4004,7154,1,
7035,0,7155,2,
5726,7036,7156,0,
6049,7037,7157,0,
7038,0,7158,2,
7044,0,7159,2,
5750,7045,7160,0,
6072,7046,7161,0,
7047,0,7162,2,
103,7049,7163,0,
7050,0,7164,2,
6590,7053,7165,0,
148,7057,7166,1,
7061,6868,7167,0,
6871,7059,7168,0,
6619,7064,7169,0,
7063,0,7170,2,
5316,7066,7171,0,
7062,0,7172,2,
4850,7069,7173,0,
7074,0,7174,2,
6973,5929,7175,1,
7076,0,7176,2,
6924,7093,7177,1,
6973,0,7178,2,
7077,0,7179,2,
6114,7080,7180,1,
7080,0,7181,2,
7089,0,7182,2,
6924,7093,7183,0,
6151,7094,7184,0,
6155,7095,7185,0,
6158,7099,7186,0,
7098,648,7187,0,
7097,0,7188,2,
7102,652,7189,0,
5349,7103,7190,0,
6173,7109,7191,0,
6172,7108,7192,0,
6175,7110,7193,0,
5926,6972,7194,0,
136,7136,7195,1,
373,7126,7196,0,
7128,5149,7197,0,
369,7126,7198,0,
7127,0,7199,2,
7128,5149,7200,1,
157,7130,7201,1,
7131,0,7202,2,
7131,6746,7203,1,
158,7132,7204,1,
375,7126,7205,0,
7134,6752,7206,0,
912,7126,7207,0,
927,7126,7208,0,
7137,6227,7209,0,
7138,0,7210,2,
140,7140,7211,1,
380,7126,7212,0,
7142,103,7213,0,
7143,0,7214,2,
7147,0,7215,2,
7148,3993,7216,1,
7148,0,7217,2,
6295,7149,7218,0,
7151,0,7219,2,
7150,6566,7220,0,
2818,7153,7221,0,
7154,0,7222,2,
7155,4004,7223,0,
7156,0,7224,2,
6573,7157,7225,1,
7157,0,7226,2,
6840,7158,7227,0,
7160,0,7228,2,
7161,0,7229,2,
7163,6219,7230,0,
7164,7051,7231,0,
7165,0,7232,2,
384,7126,7233,0,
7166,0,7234,2,
7167,0,7235,2,
7062,7168,7236,1,
6622,7169,7237,1,
162,7171,7238,1,
283,7126,7239,0,
7168,0,7240,2,
6618,7166,7241,0,
7169,0,7242,2,
7173,0,7243,2,
7175,0,7244,2,
7178,5929,7245,0,
7180,3465,7246,1,
7180,0,7247,2,
6114,7181,7248,0,
7183,0,7249,2,
159,7190,7250,1,
7196,0,7251,2,
7197,0,7252,2,
7198,0,7253,2,
6445,7199,7254,0,
369,7200,7255,0,
6450,7201,7256,0,
6450,7201,7257,1,
6448,7202,7258,0,
7203,0,7259,2,
7204,0,7260,2,
7205,0,7261,2,
6453,7204,7262,0,
375,7200,7263,0,
7206,0,7264,2,
6440,7195,7265,1,
7207,0,7266,2,
6440,7195,7267,0,
912,7200,7268,0,
7208,0,7269,2,
7209,0,7270,2,
6765,7211,7271,1,
7211,6765,7272,0,
927,7200,7273,0,
7212,0,7274,2,
7213,6247,7275,1,
380,7200,7276,0,
7213,6247,7277,0,
5986,7214,7278,0,
6292,7215,7279,0,
7216,0,7280,2,
7217,3993,7281,0,
7218,0,7282,2,
7220,0,7283,2,
140,7221,7284,1,
7223,0,7285,2,
7225,0,7286,2,
2012,7225,7287,1,
7227,0,7288,2,
6573,7226,7289,0,
7229,6585,7290,1,
7230,0,7291,2,
7229,6585,7292,0,
7231,0,7293,2,
7233,0,7294,2,
6618,7234,7295,1,
7236,3457,7296,1,
7235,7170,7297,0,
384,7200,7298,0,
7237,3458,7299,1,
7238,6631,7300,0,
7239,0,7301,2,
7236,3457,7302,0,
7241,0,7303,2,
7172,7240,7304,0,
7238,0,7305,2,
6882,7242,7306,0,
7237,3458,7307,0,
283,7200,7308,0,
7245,0,7309,2,
7246,0,7310,2,
7247,3465,7311,0,
7248,0,7312,2,
373,7200,7313,0,
7188,7249,7314,0,
6702,7250,7315,1,
6702,7250,7316,0,
7251,4899,7317,0,
7253,4916,7318,0,
5599,7252,7319,0,
7255,0,7320,2,
7256,0,7321,2,
5151,7252,7322,0,
7258,6213,7323,0,
6453,7260,7324,1,
5377,7252,7325,0,
7261,4932,7326,0,
7262,0,7327,2,
7263,0,7328,2,
7264,6756,7329,0,
7266,4962,7330,0,
7267,0,7331,2,
7268,0,7332,2,
7269,4976,7333,0,
7139,7270,7334,0,
7272,0,7335,2,
7273,0,7336,2,
7274,5005,7337,0,
7276,0,7338,2,
7277,0,7339,2,
7278,0,7340,2,
5648,7278,7341,1,
7279,0,7342,2,
6562,7279,7343,1,
7281,0,7344,2,
6833,7283,7345,0,
7224,7285,7346,0,
7287,0,7347,2,
2012,7286,7348,0,
7289,0,7349,2,
7288,3769,7350,0,
7052,7291,7351,0,
7290,7231,7352,1,
7292,0,7353,2,
7290,7293,7354,0,
5510,7294,7355,0,
7295,0,7356,2,
7298,0,7357,2,
7300,0,7358,2,
7305,6884,7359,0,
7304,0,7360,2,
7302,0,7361,2,
5521,7301,7362,0,
7306,0,7363,2,
7308,0,7364,2,
7307,0,7365,2,
6655,7309,7366,0,
7311,0,7367,2,
7313,0,7368,2,
7314,0,7369,2,
7316,0,7370,2,
5375,7317,7371,0,
5383,7318,7372,0,
7319,0,7373,2,
7320,4921,7374,0,
7322,0,7375,2,
7323,0,7376,2,
7324,0,7377,2,
7325,0,7378,2,
5392,7326,7379,0,
7328,4948,7380,0,
7329,0,7381,2,
5403,7330,7382,0,
7332,4967,7383,0,
5410,7333,7384,0,
7334,0,7385,2,
7336,4990,7386,0,
5426,7337,7387,0,
7338,5013,7388,0,
5989,7340,7389,0,
6829,7342,7390,0,
7282,7344,7391,0,
6299,7345,7392,1,
7345,0,7393,2,
6570,7346,7394,1,
7346,0,7395,2,
7348,0,7396,2,
7350,0,7397,2,
7352,0,7398,2,
7351,0,7399,2,
7354,0,7400,2,
6855,7353,7401,0,
162,7355,7402,1,
7297,7356,7403,0,
7357,5099,7404,0,
7358,7243,7405,0,
7360,7361,7406,0,
7351,6313,7407,1,
7359,0,7408,2,
148,7362,7409,1,
5776,7364,7410,0,
7363,7365,7411,0,
7366,0,7412,2,
6381,7366,7413,1,
7312,7367,7414,0,
7368,5121,7415,0,
7315,7369,7416,0,
7369,7315,7417,1,
7407,7406,7418,1,
6605,7402,7419,0,
159,7371,7420,1,
6980,7373,7421,0,
157,7372,7422,1,
5387,7374,7423,0,
7375,5167,7424,1,
7375,5167,7425,0,
7133,7376,7426,0,
5935,7378,7427,0,
158,7379,7428,1,
5396,7380,7429,0,
7381,6464,7430,0,
136,7382,7431,1,
5406,7383,7432,0,
140,7384,7433,1,
7271,7385,7434,0,
7385,7271,7435,1,
5415,7386,7436,0,
7387,103,7437,0,
5433,7388,7438,0,
7389,0,7439,2,
7390,0,7440,2,
7391,0,7441,2,
7151,7391,7442,1,
7392,0,7443,2,
6299,7393,7444,0,
2007,7394,7445,1,
6838,7395,7446,0,
2007,7394,7447,0,
7396,7349,7448,0,
7175,7411,7449,1,
7399,6313,7450,0,
6856,7401,7451,1,
7401,0,7452,2,
7402,0,7453,2,
5522,7404,7454,0,
7405,7174,7455,0,
6889,7409,7456,0,
7409,0,7457,2,
7407,0,7458,2,
7406,0,7459,2,
148,7410,7460,1,
7411,0,7461,2,
6659,7412,7462,0,
7414,0,7463,2,
7089,7414,7464,1,
5558,7415,7465,0,
7416,0,7466,2,
6758,7431,7467,1,
7254,7420,7468,0,
7421,0,7469,2,
7422,6745,7470,0,
7422,6982,7471,1,
157,7423,7472,1,
369,7424,7473,0,
7425,0,7474,2,
7426,0,7475,2,
7427,0,7476,2,
7428,6458,7477,1,
6458,7428,7478,0,
158,7429,7479,1,
375,7424,7480,0,
6758,7431,7481,0,
136,7432,7482,1,
912,7424,7483,0,
7433,0,7484,2,
7434,0,7485,2,
6768,7433,7486,0,
140,7436,7487,1,
927,7424,7488,0,
7001,7437,7489,1,
380,7424,7490,0,
7438,103,7491,0,
7437,7001,7492,0,
5992,7439,7493,0,
7219,7441,7494,0,
7444,0,7495,2,
7446,0,7496,2,
7447,0,7497,2,
7397,7448,7498,1,
7448,0,7499,2,
7450,0,7500,2,
7451,0,7501,2,
6856,7452,7502,0,
7065,7453,7503,0,
6870,7453,7504,1,
7419,5136,7505,1,
7419,5136,7506,0,
162,7454,7507,1,
384,7424,7508,0,
7455,0,7509,2,
7458,7459,7510,0,
6889,7457,7511,1,
7456,0,7512,2,
7244,7461,7513,0,
7460,7177,7514,1,
7462,0,7515,2,
373,7424,7516,0,
7182,7463,7517,0,
6445,7420,7518,0,
159,7465,7519,1,
283,7424,7520,0,
7460,7177,7521,0,
7370,7466,7522,0,
7420,6445,7523,1,
7468,0,7524,2,
7470,0,7525,2,
5942,7469,7526,0,
7472,7259,7527,1,
7473,0,7528,2,
7472,7259,7529,0,
7474,5143,7530,0,
7377,7475,7531,0,
7475,7377,7532,1,
7476,5378,7533,0,
7477,6222,7534,1,
5952,7478,7535,1,
7477,6222,7536,0,
7478,5952,7537,0,
7480,0,7538,2,
7481,0,7539,2,
7482,7210,7540,1,
7483,0,7541,2,
7482,7138,7542,0,
6768,7484,7543,1,
7335,7485,7544,0,
7486,0,7545,2,
7488,0,7546,2,
7487,6994,7547,1,
7487,6994,7548,0,
7489,0,7549,2,
7490,0,7550,2,
7341,7491,7551,1,
7492,0,7552,2,
5249,7493,7553,1,
7491,7341,7554,0,
7493,0,7555,2,
7494,0,7556,2,
7497,7496,7557,0,
7498,0,7558,2,
7397,7499,7559,0,
7523,6431,7560,1,
6335,7500,7561,0,
7502,0,7562,2,
7503,0,7563,2,
7504,0,7564,2,
7505,6868,7565,1,
7505,6610,7566,0,
7511,0,7567,2,
7508,0,7568,2,
6360,7504,7569,0,
7506,0,7570,2,
7507,0,7571,2,
7510,0,7572,2,
7513,0,7573,2,
7516,0,7574,2,
7517,0,7575,2,
5932,7518,7576,1,
7471,0,7577,2,
7520,0,7578,2,
7522,0,7579,2,
7514,0,7580,2,
7521,0,7581,2,
7523,6431,7582,0,
7524,7129,7583,0,
7471,7525,7584,0,
7321,7525,7585,0,
7526,0,7586,2,
7529,0,7587,2,
7528,5173,7588,0,
7531,0,7589,2,
4893,7530,7590,1,
5380,7533,7591,1,
7536,0,7592,2,
6754,7535,7593,0,
7537,0,7594,2,
6754,7535,7595,1,
7538,5192,7596,0,
5606,7526,7597,1,
7540,0,7598,2,
7542,0,7599,2,
7541,5215,7600,0,
7543,6236,7601,1,
7543,0,7602,2,
7544,0,7603,2,
6995,7545,7604,0,
7546,5226,7605,0,
7548,0,7606,2,
7551,0,7607,2,
7550,5245,7608,0,
7554,0,7609,2,
5249,7555,7610,0,
7553,0,7611,2,
7557,0,7612,2,
7287,7557,7613,1,
7559,0,7614,2,
7579,7560,7615,1,
6864,7561,7616,1,
7561,0,7617,2,
7403,7563,7618,0,
6640,7564,7619,0,
7565,0,7620,2,
7566,0,7621,2,
7569,0,7622,2,
7568,5332,7623,0,
7565,7571,7624,0,
7574,5341,7625,0,
6740,7576,7626,1,
7578,5352,7627,0,
7403,7567,7628,0,
7580,7581,7629,0,
7560,7579,7630,0,
7582,0,7631,2,
7241,7567,7632,0,
7583,0,7633,2,
7584,0,7634,2,
6747,7586,7635,0,
5393,7588,7636,0,
7327,7589,7637,0,
369,7590,7638,0,
369,7591,7639,0,
7593,0,7640,2,
7479,7595,7641,1,
7479,7595,7642,0,
369,7597,7643,0,
5402,7596,7644,0,
5943,7586,7645,0,
375,7590,7646,0,
375,7591,7647,0,
912,7590,7648,0,
375,7597,7649,0,
5413,7600,7650,0,
7601,0,7651,2,
7601,7544,7652,1,
6236,7602,7653,0,
7547,7604,7654,1,
912,7591,7655,0,
5423,7605,7656,0,
7604,0,7657,2,
912,7597,7658,0,
927,7590,7659,0,
7141,7606,7660,0,
927,7591,7661,0,
927,7597,7662,0,
5438,7608,7663,0,
380,7590,7664,0,
7610,0,7665,2,
380,7591,7666,0,
7347,7612,7667,0,
7519,7626,7668,1,
380,7597,7669,0,
7616,0,7670,2,
6864,7617,7671,0,
7618,0,7672,2,
7619,0,7673,2,
384,7590,7674,0,
384,7591,7675,0,
7620,7507,7676,0,
7570,7621,7677,0,
5531,7623,7678,0,
7624,0,7679,2,
384,7597,7680,0,
5551,7625,7681,0,
373,7597,7682,0,
7519,7626,7683,0,
373,7591,7684,0,
373,7590,7685,0,
283,7597,7686,0,
7627,5574,7687,0,
7628,7563,7688,0,
283,7591,7689,0,
283,7590,7690,0,
7629,0,7691,2,
7630,0,7692,2,
7632,0,7693,2,
7257,7633,7694,0,
7634,7527,7695,0,
7635,0,7696,2,
157,7636,7697,1,
7637,0,7698,2,
7638,0,7699,2,
7639,0,7700,2,
7594,7640,7701,0,
7642,0,7702,2,
158,7644,7703,1,
7643,0,7704,2,
7645,0,7705,2,
7646,0,7706,2,
7647,0,7707,2,
7648,0,7708,2,
136,7650,7709,1,
7649,0,7710,2,
7651,7603,7711,0,
7653,0,7712,2,
7655,0,7713,2,
7654,0,7714,2,
140,7656,7715,1,
7547,7657,7716,0,
7659,0,7717,2,
7658,0,7718,2,
7660,0,7719,2,
7661,0,7720,2,
7662,0,7721,2,
7553,7663,7722,1,
7664,0,7723,2,
5657,7665,7724,0,
7663,7611,7725,0,
7666,0,7726,2,
7667,0,7727,2,
7512,7693,7728,0,
7631,7692,7729,0,
7669,0,7730,2,
7671,0,7731,2,
7672,7303,7732,0,
7408,7673,7733,0,
7674,0,7734,2,
7675,0,7735,2,
7676,0,7736,2,
7677,7295,7737,0,
162,7678,7738,1,
7680,0,7739,2,
159,7681,7740,1,
7633,7257,7741,1,
7682,0,7742,2,
7684,0,7743,2,
7685,0,7744,2,
7686,0,7745,2,
148,7687,7746,1,
7683,0,7747,2,
7688,0,7748,2,
7689,0,7749,2,
7690,0,7750,2,
5920,7750,7751,0,
7694,0,7752,2,
6984,7696,7753,0,
7532,7697,7754,1,
7532,7697,7755,0,
7699,5181,7756,0,
7534,7698,7757,0,
7698,7534,7758,1,
7700,5187,7759,0,
7701,0,7760,2,
7704,5404,7761,0,
7705,6217,7762,0,
7706,5201,7763,0,
7707,5206,7764,0,
7708,5217,7765,0,
7435,7709,7766,1,
7710,5416,7767,0,
7435,7709,7768,0,
7711,0,7769,2,
7713,5232,7770,0,
7716,0,7771,2,
7715,0,7772,2,
7717,5238,7773,0,
7718,5428,7774,0,
7275,7715,7775,0,
7720,5244,7776,0,
7721,5437,7777,0,
7722,0,7778,2,
7723,5254,7779,0,
5443,7724,7780,1,
7725,0,7781,2,
7724,0,7782,2,
7726,5259,7783,0,
7748,7581,7784,0,
7730,5500,7785,0,
7732,0,7786,2,
7733,7509,7787,0,
7735,5336,7788,0,
7736,7622,7789,0,
7734,5335,7790,0,
7732,7511,7791,0,
7737,0,7792,2,
7738,0,7793,2,
7739,5538,7794,0,
7740,0,7795,2,
7742,5562,7796,0,
7741,7740,7797,0,
7743,5356,7798,0,
7744,5357,7799,0,
7746,0,7800,2,
7745,5575,7801,0,
7417,7746,7802,0,
7729,0,7803,2,
7668,7729,7804,1,
7749,5362,7805,0,
123,7751,7806,1,
7585,7752,7807,0,
7753,0,7808,2,
7755,0,7809,2,
7757,0,7810,2,
5614,7756,7811,0,
6225,7759,7812,0,
7265,7760,7813,0,
7760,7265,7814,1,
6214,7762,7815,1,
6469,7761,7816,0,
5624,7763,7817,0,
6232,7764,7818,0,
5627,7765,7819,0,
7768,0,7820,2,
6481,7767,7821,0,
7712,7769,7822,0,
6244,7770,7823,0,
7275,7772,7824,1,
5642,7773,7825,0,
6494,7774,7826,0,
7775,0,7827,2,
6254,7776,7828,0,
6509,7777,7829,0,
5658,7779,7830,0,
5665,7782,7831,0,
6278,7783,7832,0,
7784,7728,7833,0,
7804,0,7834,2,
7802,0,7835,2,
7805,6437,7836,0,
6588,7785,7837,0,
7567,7786,7838,0,
7787,0,7839,2,
7791,0,7840,2,
5793,7790,7841,0,
6376,7788,7842,0,
7738,7792,7843,0,
7792,7672,7844,0,
6663,7794,7845,0,
7321,7752,7846,0,
7741,7795,7847,1,
7797,0,7848,2,
6704,7796,7849,0,
6417,7798,7850,0,
7668,7803,7851,0,
5896,7799,7852,0,
7417,7800,7853,1,
6729,7801,7854,0,
7806,0,7855,2,
148,7836,7856,1,
158,7817,7857,1,
148,7854,7858,1,
159,7852,7859,1,
7807,0,7860,2,
7808,6749,7861,0,
7592,7810,7862,0,
157,7811,7863,1,
157,7812,7864,1,
7813,0,7865,2,
7814,7703,7866,1,
7814,7703,7867,0,
369,7815,7868,0,
157,7816,7869,1,
7808,6749,7870,1,
158,7818,7871,1,
375,7815,7872,0,
136,7819,7873,1,
158,7821,7874,1,
7822,0,7875,2,
136,7823,7876,1,
7824,0,7877,2,
7824,7660,7878,1,
912,7815,7879,0,
136,7826,7880,1,
140,7825,7881,1,
7339,7827,7882,0,
140,7828,7883,1,
927,7815,7884,0,
140,7829,7885,1,
7780,7830,7886,1,
7830,7780,7887,0,
7831,0,7888,2,
7837,7054,7889,1,
7806,7615,7890,1,
380,7815,7891,0,
7837,7054,7892,0,
7838,0,7893,2,
7789,7839,7894,0,
162,7841,7895,1,
162,7842,7896,1,
7843,7672,7897,0,
7844,0,7898,2,
384,7815,7899,0,
162,7845,7900,1,
7846,0,7901,2,
7847,0,7902,2,
373,7815,7903,0,
159,7849,7904,1,
7833,0,7905,2,
283,7815,7906,0,
159,7850,7907,1,
7851,0,7908,2,
7853,0,7909,2,
7855,7615,7910,0,
7901,7577,7911,1,
7695,7860,7912,0,
7861,0,7913,2,
7758,7863,7914,1,
7758,7863,7915,0,
7862,0,7916,2,
7641,7862,7917,1,
7331,7865,7918,0,
7867,0,7919,2,
7868,0,7920,2,
369,7870,7921,0,
7872,0,7922,2,
7873,0,7923,2,
7652,7873,7924,0,
7714,7875,7925,0,
375,7870,7926,0,
7875,7714,7927,1,
7877,7719,7928,0,
7879,0,7929,2,
7881,7549,7930,1,
7882,0,7931,2,
7881,7489,7932,0,
912,7870,7933,0,
7883,7607,7934,1,
7883,7551,7935,0,
7885,7778,7936,1,
7884,0,7937,2,
7885,7778,7938,0,
7887,0,7939,2,
927,7870,7940,0,
5670,7888,7941,0,
7856,7834,7942,1,
7902,7803,7943,0,
7890,0,7944,2,
7891,0,7945,2,
380,7870,7946,0,
7892,0,7947,2,
7893,7512,7948,0,
7894,0,7949,2,
7840,7893,7950,0,
7895,0,7951,2,
7896,0,7952,2,
7897,0,7953,2,
384,7870,7954,0,
7898,7793,7955,0,
7895,7840,7956,0,
7899,0,7957,2,
7900,0,7958,2,
7577,7901,7959,0,
7683,7902,7960,0,
373,7870,7961,0,
7903,0,7962,2,
7906,0,7963,2,
7905,7691,7964,0,
7908,7747,7965,0,
283,7870,7966,0,
7856,7834,7967,0,
7691,7909,7968,0,
7858,0,7969,2,
7910,0,7970,2,
7912,0,7971,2,
7910,7942,7972,0,
6751,7913,7973,0,
7641,7916,7974,0,
7915,0,7975,2,
7917,0,7976,2,
7918,0,7977,2,
7920,5965,7978,0,
7921,0,7979,2,
7922,5972,7980,0,
7652,7923,7981,1,
7924,0,7982,2,
7925,0,7983,2,
7926,0,7984,2,
7876,7927,7985,1,
7876,7927,7986,0,
7928,0,7987,2,
7929,5987,7988,0,
7930,7882,7989,1,
7930,0,7990,2,
7932,0,7991,2,
7933,0,7992,2,
7934,0,7993,2,
7935,0,7994,2,
7937,5995,7995,0,
7938,0,7996,2,
7940,0,7997,2,
6277,7941,7998,1,
7941,0,7999,2,
7945,6063,8000,0,
7946,0,8001,2,
7232,7947,8002,0,
7514,7948,8003,1,
7949,7679,8004,0,
7950,0,8005,2,
7955,0,8006,2,
7954,0,8007,2,
7956,7893,8008,0,
7957,6127,8009,0,
7959,0,8010,2,
7960,0,8011,2,
7943,7668,8012,0,
7962,6179,8013,0,
7961,0,8014,2,
7911,7859,8015,1,
7911,7859,8016,0,
7963,6195,8017,0,
7964,0,8018,2,
7847,7965,8019,1,
7944,7942,8020,0,
7967,0,8021,2,
7966,0,8022,2,
7968,7905,8023,0,
7977,7467,8024,1,
7587,7971,8025,0,
7972,0,8026,2,
7973,0,8027,2,
7974,0,8028,2,
7864,7976,8029,1,
7864,7976,8030,0,
7467,7977,8031,0,
6991,7978,8032,0,
7979,6235,8033,0,
6993,7980,8034,0,
7981,0,8035,2,
7771,7983,8036,0,
7984,6245,8037,0,
7986,0,8038,2,
7004,7988,8039,0,
7990,7931,8040,0,
7992,6257,8041,0,
7552,7991,8042,0,
7609,7994,8043,0,
7012,7995,8044,0,
7781,7996,8045,0,
7832,7998,8046,1,
7997,6274,8047,0,
7832,7998,8048,0,
6545,7999,8049,0,
8022,6438,8050,0,
8019,7969,8051,1,
8023,0,8052,2,
7043,8000,8053,0,
8001,6324,8054,0,
8002,0,8055,2,
8003,0,8056,2,
8004,0,8057,2,
8005,7951,8058,0,
8003,7952,8059,0,
8007,6389,8060,0,
8008,0,8061,2,
7085,8009,8062,0,
8010,7525,8063,0,
8012,0,8064,2,
7848,8011,8065,0,
7113,8013,8066,0,
8014,6421,8067,0,
7118,8017,8068,0,
7853,8018,8069,0,
8016,0,8070,2,
8019,7858,8071,0,
8025,0,8072,2,
8026,8021,8073,0,
8027,6755,8074,0,
7702,8028,8075,0,
8030,0,8076,2,
8031,0,8077,2,
8024,7857,8078,1,
8024,7857,8079,0,
157,8032,8080,1,
6992,8033,8081,0,
8027,6755,8082,1,
158,8034,8083,1,
8036,0,8084,2,
8036,7878,8085,1,
7002,8037,8086,0,
136,8039,8087,1,
8040,0,8088,2,
8042,0,8089,2,
7007,8041,8090,0,
7934,8042,8091,1,
7936,8043,8092,1,
8043,0,8093,2,
140,8044,8094,1,
8045,0,8095,2,
7018,8047,8096,0,
8048,0,8097,2,
8049,0,8098,2,
148,8068,8099,1,
8051,0,8100,2,
8069,0,8101,2,
8053,7159,8102,0,
7048,8054,8103,0,
8053,7044,8104,1,
8056,7896,8105,0,
7953,8057,8106,0,
8059,0,8107,2,
7084,8060,8108,0,
162,8062,8109,1,
7527,8063,8110,1,
8065,8064,8111,0,
159,8066,8112,1,
7115,8067,8113,0,
8071,0,8114,2,
7835,8052,8115,0,
7041,8050,8116,0,
8072,7754,8117,0,
8074,0,8118,2,
8075,0,8119,2,
7539,8077,8120,0,
8079,0,8121,2,
157,8081,8122,1,
369,8082,8123,0,
8083,0,8124,2,
8084,7878,8125,0,
375,8082,8126,0,
158,8086,8127,1,
8085,0,8128,2,
8087,0,8129,2,
912,8082,8130,0,
7993,8089,8131,0,
136,8090,8132,1,
8092,0,8133,2,
7936,8093,8134,0,
8094,0,8135,2,
7886,8094,8136,0,
140,8096,8137,1,
927,8082,8138,0,
8098,8097,8139,0,
8115,0,8140,2,
148,8116,8141,1,
8102,0,8142,2,
8104,8002,8143,1,
8104,0,8144,2,
380,8082,8145,0,
8105,0,8146,2,
8101,8052,8147,0,
8106,0,8148,2,
162,8108,8149,1,
8115,7890,8150,1,
384,8082,8151,0,
8109,0,8152,2,
8072,7754,8153,1,
373,8082,8154,0,
8110,0,8155,2,
283,8082,8156,0,
8111,0,8157,2,
159,8113,8158,1,
8099,0,8159,2,
7907,8155,8160,1,
8117,0,8161,2,
7135,8118,8162,0,
8119,7866,8163,0,
8119,7866,8164,1,
7540,8120,8165,1,
8120,0,8166,2,
6753,8118,8167,0,
8123,0,8168,2,
6986,8118,8169,0,
8126,0,8170,2,
8125,0,8171,2,
7880,8128,8172,1,
7880,8128,8173,0,
8130,0,8174,2,
8132,0,8175,2,
8131,0,8176,2,
8134,0,8177,2,
7886,8135,8178,1,
8136,0,8179,2,
8046,8137,8180,1,
8046,8137,8181,0,
8138,0,8182,2,
7889,8139,8183,1,
7907,8155,8184,0,
7228,8142,8185,0,
8139,0,8186,2,
8144,8055,8187,0,
8145,0,8188,2,
8058,8146,8189,0,
8006,8148,8190,0,
8147,7900,8191,0,
8147,0,8192,2,
8150,8109,8193,0,
8151,0,8194,2,
8149,0,8195,2,
8150,0,8196,2,
8153,0,8197,2,
8154,0,8198,2,
8157,8015,8199,0,
7904,8153,8200,0,
7944,8140,8201,0,
8156,0,8202,2,
8157,8015,8203,1,
8020,8140,8204,0,
7809,8161,8205,0,
8162,0,8206,2,
8163,0,8207,2,
8164,7869,8208,1,
8164,7869,8209,0,
7598,8166,8210,0,
8165,0,8211,2,
7871,8165,8212,0,
8167,0,8213,2,
8168,6772,8214,0,
8169,0,8215,2,
7987,8171,8216,0,
8170,6780,8217,0,
8173,0,8218,2,
8174,6793,8219,0,
8178,0,8220,2,
8178,8045,8221,1,
7939,8179,8222,0,
8181,0,8223,2,
8182,6816,8224,0,
8183,0,8225,2,
7904,8197,8226,1,
8203,8099,8227,0,
8204,0,8228,2,
8185,0,8229,2,
7047,8185,8230,1,
7889,8186,8231,0,
8187,0,8232,2,
8188,6886,8233,0,
8189,0,8234,2,
8190,0,8235,2,
8191,0,8236,2,
7958,8192,8237,0,
8193,0,8238,2,
8194,6918,8239,0,
8198,6951,8240,0,
8202,6965,8241,0,
8201,0,8242,2,
8199,0,8243,2,
8200,0,8244,2,
8203,8159,8245,1,
8184,0,8246,2,
8070,8243,8247,0,
8242,7970,8248,0,
8245,0,8249,2,
8227,0,8250,2,
8103,8230,8251,1,
8073,8228,8252,0,
8205,0,8253,2,
7430,8206,8254,0,
7919,8207,8255,0,
8209,0,8256,2,
7871,8211,8257,1,
8210,0,8258,2,
8212,0,8259,2,
8213,6482,8260,1,
6996,8214,8261,0,
8213,6482,8262,0,
7206,8215,8263,0,
7003,8217,8264,0,
8216,0,8265,2,
7989,8216,8266,1,
7009,8219,8267,0,
8220,8095,8268,0,
8222,0,8269,2,
7020,8224,8270,0,
8103,8230,8271,0,
7162,8229,8272,0,
8231,0,8273,2,
7075,8233,8274,0,
8234,8107,8275,0,
8235,8146,8276,0,
8061,8236,8277,0,
8237,0,8278,2,
7091,8239,8279,0,
8226,0,8280,2,
7116,8240,8281,0,
7121,8241,8282,0,
8247,0,8283,2,
148,8282,8284,1,
8071,8249,8285,0,
8252,0,8286,2,
8253,7914,8287,0,
8254,0,8288,2,
8255,0,8289,2,
7599,8258,8290,0,
8257,0,8291,2,
369,8260,8292,0,
157,8261,8293,1,
8262,0,8294,2,
8263,0,8295,2,
375,8260,8296,0,
7989,8265,8297,0,
158,8264,8298,1,
8266,0,8299,2,
8266,8129,8300,1,
136,8267,8301,1,
912,8260,8302,0,
8268,0,8303,2,
8269,8180,8304,1,
927,8260,8305,0,
8269,8180,8306,0,
140,8270,8307,1,
8100,8249,8308,0,
8272,0,8309,2,
8271,0,8310,2,
380,8260,8311,0,
8275,0,8312,2,
7942,8248,8313,1,
8276,8277,8314,0,
384,8260,8315,0,
162,8279,8316,1,
8051,8252,8317,1,
373,8260,8318,0,
283,8260,8319,0,
8253,7914,8320,1,
159,8281,8321,1,
8184,8280,8322,0,
8160,8280,8323,0,
8160,8247,8324,1,
8285,0,8325,2,
8308,8286,8326,0,
8287,0,8327,2,
6465,8288,8328,0,
8289,8078,8329,0,
8289,8078,8330,1,
8290,0,8331,2,
8292,0,8332,2,
8294,6750,8333,0,
8295,6756,8334,0,
8296,0,8335,2,
8297,0,8336,2,
8299,8087,8337,0,
8301,0,8338,2,
8302,0,8339,2,
8305,0,8340,2,
8306,0,8341,2,
8284,0,8342,2,
8309,8310,8343,0,
8311,0,8344,2,
8313,0,8345,2,
8236,8312,8346,0,
8314,0,8347,2,
8313,8195,8348,0,
8315,0,8349,2,
8317,8316,8350,0,
8317,0,8351,2,
8316,0,8352,2,
8318,0,8353,2,
8320,8112,8354,1,
8319,0,8355,2,
8320,8112,8356,0,
8100,8286,8357,0,
8324,0,8358,2,
8323,8283,8359,0,
8160,8283,8360,0,
8322,0,8361,2,
8326,0,8362,2,
7975,8327,8363,0,
8328,0,8364,2,
8329,0,8365,2,
8330,8080,8366,1,
8330,8080,8367,0,
8331,7766,8368,0,
8331,7766,8369,1,
8332,6775,8370,0,
6457,8333,8371,1,
6223,8334,8372,1,
8335,6784,8373,0,
8088,8336,8374,0,
8337,0,8375,2,
8339,6800,8376,0,
8340,6812,8377,0,
8223,8341,8378,0,
8141,8358,8379,1,
8343,0,8380,2,
8344,6860,8381,0,
8346,0,8382,2,
8345,8149,8383,0,
8348,0,8384,2,
8349,6926,8385,0,
8350,0,8386,2,
8352,8351,8387,0,
8353,6942,8388,0,
8355,6958,8389,0,
8357,0,8390,2,
8141,8358,8391,0,
8356,0,8392,2,
8361,8244,8393,0,
8359,0,8394,2,
8360,0,8395,2,
8250,8325,8396,0,
8393,8394,8397,0,
8396,8362,8398,0,
8363,0,8399,2,
8364,6467,8400,0,
8121,8365,8401,0,
8367,0,8402,2,
8368,0,8403,2,
8369,7874,8404,1,
8369,7874,8405,0,
6997,8370,8406,0,
369,8371,8407,0,
369,8372,8408,0,
8364,6467,8409,1,
7006,8373,8410,0,
375,8371,8411,0,
8374,0,8412,2,
8091,8374,8413,1,
375,8372,8414,0,
7014,8376,8415,0,
912,8371,8416,0,
912,8372,8417,0,
7019,8377,8418,0,
8378,0,8419,2,
8395,8246,8420,0,
8380,7398,8421,0,
373,8372,8422,0,
380,8371,8423,0,
7056,8381,8424,0,
927,8371,8425,0,
927,8372,8426,0,
380,8372,8427,0,
8380,7398,8428,1,
8278,8382,8429,0,
8383,0,8430,2,
384,8371,8431,0,
7096,8385,8432,0,
384,8372,8433,0,
8387,0,8434,2,
373,8371,8435,0,
7112,8388,8436,0,
283,8372,8437,0,
8029,8363,8438,1,
7120,8389,8439,0,
283,8371,8440,0,
8390,8114,8441,0,
8391,0,8442,2,
8397,0,8443,2,
8226,8420,8444,1,
8398,0,8445,2,
8029,8399,8446,0,
8400,0,8447,2,
8401,0,8448,2,
8257,8401,8449,1,
7820,8403,8450,0,
8405,0,8451,2,
157,8406,8452,1,
8407,0,8453,2,
8408,0,8454,2,
369,8409,8455,0,
158,8410,8456,1,
8091,8412,8457,0,
8411,0,8458,2,
8413,0,8459,2,
8413,8175,8460,1,
8414,0,8461,2,
375,8409,8462,0,
136,8415,8463,1,
8416,0,8464,2,
8417,0,8465,2,
912,8409,8466,0,
140,8418,8467,1,
8419,8225,8468,1,
148,8439,8469,1,
8225,8419,8470,0,
927,8409,8471,0,
8421,0,8472,2,
373,8409,8473,0,
8422,0,8474,2,
380,8409,8475,0,
8423,0,8476,2,
8425,0,8477,2,
8426,0,8478,2,
8274,8428,8479,1,
8427,0,8480,2,
8274,8428,8481,0,
8429,8347,8482,0,
8152,8430,8483,0,
8238,8430,8484,0,
8431,0,8485,2,
384,8409,8486,0,
8379,8398,8487,1,
162,8432,8488,1,
8245,8441,8489,1,
8433,0,8490,2,
8435,0,8491,2,
159,8436,8492,1,
283,8409,8493,0,
8437,0,8494,2,
8438,0,8495,2,
8440,0,8496,2,
8379,8445,8497,0,
8446,0,8498,2,
6762,8447,8499,0,
8449,0,8500,2,
8291,8448,8501,0,
8122,8449,8502,0,
8450,0,8503,2,
7981,8450,8504,1,
8452,0,8505,2,
8453,5647,8506,0,
8454,6786,8507,0,
8455,0,8508,2,
8456,0,8509,2,
8457,0,8510,2,
8458,5656,8511,0,
8459,8132,8512,0,
8461,6797,8513,0,
8462,0,8514,2,
8463,0,8515,2,
8464,5661,8516,0,
8465,6810,8517,0,
8468,8307,8518,1,
8466,0,8519,2,
8467,0,8520,2,
8468,8307,8521,0,
8158,8495,8522,1,
8470,0,8523,2,
7400,8472,8524,0,
8471,0,8525,2,
8475,0,8526,2,
8474,6857,8527,0,
8473,0,8528,2,
8476,5768,8529,0,
8477,5771,8530,0,
8478,6881,8531,0,
8480,6885,8532,0,
8479,0,8533,2,
8481,0,8534,2,
8483,8196,8535,0,
8482,0,8536,2,
8485,5857,8537,0,
8487,0,8538,2,
8486,0,8539,2,
8489,0,8540,2,
8488,0,8541,2,
8489,8488,8542,0,
8490,6946,8543,0,
8491,5899,8544,0,
8493,0,8545,2,
8494,6960,8546,0,
8354,8443,8547,0,
8444,8284,8548,0,
8158,8495,8549,0,
8496,5922,8550,0,
8443,8354,8551,1,
8469,0,8552,2,
8444,8342,8553,1,
8551,8469,8554,0,
8549,0,8555,2,
6887,8532,8556,0,
8497,0,8557,2,
8076,8498,8558,0,
8499,0,8559,2,
8501,0,8560,2,
8122,8500,8561,1,
8502,0,8562,2,
8035,8503,8563,0,
8504,8124,8564,1,
8504,8083,8565,0,
7005,8506,8566,0,
6790,8507,8567,0,
8508,6514,8568,0,
7010,8511,8569,0,
8176,8510,8570,0,
8512,0,8571,2,
6799,8513,8572,0,
8514,6533,8573,0,
7016,8516,8574,0,
6811,8517,8575,0,
8519,6554,8576,0,
8521,0,8577,2,
8551,8552,8578,1,
8273,8523,8579,0,
8525,6599,8580,0,
8524,0,8581,2,
8526,6611,8582,0,
6865,8527,8583,0,
8528,6609,8584,0,
7067,8529,8585,0,
7070,8530,8586,0,
6883,8531,8587,0,
8484,8536,8588,0,
8535,0,8589,2,
7100,8537,8590,0,
8539,6695,8591,0,
8540,8541,8592,0,
8542,0,8593,2,
6947,8543,8594,0,
7114,8544,8595,0,
8545,6722,8596,0,
6963,8546,8597,0,
8547,0,8598,2,
7124,8550,8599,0,
8553,0,8600,2,
8548,0,8601,2,
8554,0,8602,2,
140,8586,8603,1,
8442,8557,8604,0,
8558,0,8605,2,
8559,6764,8606,0,
8259,8560,8607,0,
8561,0,8608,2,
8563,0,8609,2,
8564,0,8610,2,
8565,0,8611,2,
157,8566,8612,1,
157,8567,8613,1,
7008,8568,8614,0,
8559,6764,8615,1,
158,8569,8616,1,
8570,0,8617,2,
8092,8570,8618,1,
158,8572,8619,1,
7015,8573,8620,0,
136,8574,8621,1,
136,8575,8622,1,
8579,8143,8623,1,
7022,8576,8624,0,
8392,8598,8625,0,
8578,0,8626,2,
148,8597,8627,1,
159,8583,8628,1,
8579,0,8629,2,
8581,7501,8630,1,
7055,8580,8631,0,
7060,8584,8632,0,
8581,7501,8633,0,
7058,8582,8634,0,
7296,8585,8635,1,
8585,7296,8636,0,
8556,7418,8637,1,
140,8587,8638,1,
8556,7418,8639,0,
8589,8384,8640,0,
8588,0,8641,2,
162,8590,8642,1,
7105,8591,8643,0,
162,8594,8644,1,
159,8595,8645,1,
7117,8596,8646,0,
148,8599,8647,1,
8604,0,8648,2,
8208,8605,8649,0,
8606,0,8650,2,
8607,0,8651,2,
7982,8609,8652,0,
157,8614,8653,1,
369,8615,8654,0,
8616,0,8655,2,
8133,8617,8656,0,
8618,8338,8657,1,
8618,8301,8658,0,
8619,0,8659,2,
375,8615,8660,0,
158,8620,8661,1,
8622,8518,8662,1,
8623,8520,8663,1,
8622,8518,8664,0,
136,8624,8665,1,
8143,8629,8666,0,
927,8615,8667,0,
140,8631,8668,1,
8630,8424,8669,1,
8623,0,8670,2,
159,8632,8671,1,
912,8615,8672,0,
8424,8630,8673,0,
8633,0,8674,2,
8634,7670,8675,0,
380,8615,8676,0,
373,8615,8677,0,
8251,8603,8678,1,
8636,0,8679,2,
8251,8603,8680,0,
8638,8533,8681,1,
8639,0,8682,2,
8638,8479,8683,0,
8634,7616,8684,1,
8640,8641,8685,0,
384,8615,8686,0,
8538,8642,8687,0,
8642,0,8688,2,
162,8643,8689,1,
8553,8604,8690,1,
8605,8208,8691,1,
8644,0,8692,2,
283,8615,8693,0,
148,8646,8694,1,
8625,0,8695,2,
8522,8625,8696,1,
8627,0,8697,2,
8522,8695,8698,0,
8693,0,8699,2,
8648,8600,8700,0,
8649,0,8701,2,
6769,8650,8702,0,
8404,8651,8703,0,
8651,8404,8704,1,
8652,0,8705,2,
8654,0,8706,2,
8653,0,8707,2,
8656,0,8708,2,
8657,0,8709,2,
8658,0,8710,2,
8660,0,8711,2,
8661,0,8712,2,
8664,0,8713,2,
8663,0,8714,2,
8666,0,8715,2,
8670,8467,8716,0,
8665,8663,8717,0,
8668,8669,8718,0,
8667,0,8719,2,
7562,8674,8720,0,
8672,0,8721,2,
8671,0,8722,2,
8675,0,8723,2,
8673,0,8724,2,
8677,0,8725,2,
8676,0,8726,2,
8680,0,8727,2,
8681,0,8728,2,
7572,8682,8729,0,
8683,0,8730,2,
8669,0,8731,2,
8684,0,8732,2,
8685,0,8733,2,
8686,0,8734,2,
8687,0,8735,2,
8487,8688,8736,0,
8689,0,8737,2,
8690,8644,8738,0,
8690,0,8739,2,
8696,0,8740,2,
8691,8321,8741,1,
8691,8321,8742,0,
8694,0,8743,2,
8647,8740,8744,1,
8698,0,8745,2,
8700,0,8746,2,
8256,8701,8747,0,
8702,0,8748,2,
8703,0,8749,2,
8704,8293,8750,1,
8704,8293,8751,0,
8705,7985,8752,0,
8705,7985,8753,1,
8706,6524,8754,0,
8177,8708,8755,0,
8711,6538,8756,0,
8577,8713,8757,0,
8665,8714,8758,1,
8232,8715,8759,0,
8717,0,8760,2,
8719,6624,8761,0,
8718,0,8762,2,
8716,0,8763,2,
8720,8635,8764,1,
7731,8723,8765,0,
8721,6627,8766,0,
8720,0,8767,2,
8726,6635,8768,0,
8725,6632,8769,0,
8534,8730,8770,0,
8668,8731,8771,1,
8729,0,8772,2,
8684,8729,8773,1,
8386,8733,8774,0,
8734,6696,8775,0,
8592,8735,8776,0,
8593,8735,8777,0,
8736,0,8778,2,
8647,8740,8779,0,
8692,8739,8780,0,
8738,0,8781,2,
8699,6439,8782,0,
8742,0,8783,2,
7072,8768,8784,0,
7299,8765,8785,1,
7125,8782,8786,0,
8601,8746,8787,0,
8747,0,8788,2,
8748,6480,8789,0,
8451,8749,8790,0,
8751,0,8791,2,
8752,0,8792,2,
8127,8753,8793,1,
8127,8753,8794,0,
8748,6480,8795,1,
7013,8754,8796,0,
8755,0,8797,2,
8221,8755,8798,1,
7017,8756,8799,0,
8758,0,8800,2,
8758,8757,8801,1,
8757,0,8802,2,
8771,8770,8803,1,
8759,0,8804,2,
7068,8761,8805,0,
8724,8762,8806,0,
8763,8760,8807,0,
8767,8635,8808,0,
8764,0,8809,2,
7071,8766,8810,0,
7073,8769,8811,0,
8765,0,8812,2,
8732,8772,8813,0,
8770,0,8814,2,
8771,0,8815,2,
8774,0,8816,2,
7106,8775,8817,0,
8776,0,8818,2,
8779,0,8819,2,
8555,8745,8820,0,
8780,0,8821,2,
8787,0,8822,2,
8366,8788,8823,0,
8789,0,8824,2,
8790,0,8825,2,
8564,8790,8826,1,
8038,8792,8827,0,
8794,0,8828,2,
369,8795,8829,0,
157,8796,8830,1,
8221,8797,8831,0,
8798,8515,8832,1,
8798,0,8833,2,
158,8799,8834,1,
8800,8802,8835,0,
8820,0,8836,2,
148,8786,8837,1,
8804,8678,8838,1,
8764,8806,8839,1,
140,8805,8840,1,
8806,0,8841,2,
8807,0,8842,2,
136,8810,8843,1,
8785,0,8844,2,
8808,0,8845,2,
159,8811,8846,1,
7299,8812,8847,0,
8678,8804,8848,0,
373,8795,8849,0,
8815,8814,8850,0,
8813,0,8851,2,
912,8795,8852,0,
8784,8785,8853,1,
380,8795,8854,0,
927,8795,8855,0,
375,8795,8856,0,
384,8795,8857,0,
8434,8816,8858,0,
162,8817,8859,1,
8578,8787,8860,1,
8788,8366,8861,1,
283,8795,8862,0,
8818,8778,8863,0,
8822,8626,8864,0,
8823,0,8865,2,
6483,8824,8866,0,
8610,8825,8867,0,
8826,8505,8868,1,
8826,8452,8869,0,
8827,0,8870,2,
8827,8172,8871,1,
8829,0,8872,2,
8830,0,8873,2,
8831,0,8874,2,
8833,8463,8875,0,
8835,0,8876,2,
8838,8807,8877,1,
8840,8839,8878,0,
8809,8841,8879,0,
8784,8844,8880,0,
8838,8842,8881,0,
8679,8845,8882,0,
8848,0,8883,2,
8847,0,8884,2,
8849,0,8885,2,
8850,0,8886,2,
8839,0,8887,2,
8852,0,8888,2,
8853,0,8889,2,
8854,0,8890,2,
8855,0,8891,2,
8856,0,8892,2,
8857,0,8893,2,
8858,0,8894,2,
8861,8492,8895,1,
8860,0,8896,2,
8862,0,8897,2,
8861,8492,8898,0,
8859,0,8899,2,
8860,8689,8900,0,
8836,8741,8901,0,
8836,8741,8902,1,
8902,8627,8903,0,
8864,0,8904,2,
8402,8865,8905,0,
8866,0,8906,2,
8867,0,8907,2,
8868,0,8908,2,
8869,0,8909,2,
8172,8870,8910,0,
8871,0,8911,2,
8872,6802,8912,0,
8303,8874,8913,0,
8875,0,8914,2,
8877,0,8915,2,
8879,0,8916,2,
8878,0,8917,2,
8637,8882,8918,1,
8880,0,8919,2,
8881,0,8920,2,
8727,8883,8921,0,
8882,0,8922,2,
8885,6892,8923,0,
8840,8887,8924,1,
8888,6901,8925,0,
8890,6909,8926,0,
8891,6912,8927,0,
8892,6933,8928,0,
8893,6945,8929,0,
8777,8894,8930,0,
8896,8737,8931,0,
8898,0,8932,2,
8897,6956,8933,0,
8900,0,8934,2,
8901,0,8935,2,
8902,8697,8936,1,
8903,0,8937,2,
8602,8904,8938,0,
8905,0,8939,2,
8906,5634,8940,0,
8611,8907,8941,0,
8910,0,8942,2,
8298,8911,8943,1,
8298,8911,8944,0,
6803,8912,8945,0,
8906,5634,8946,1,
8304,8913,8947,1,
8913,0,8948,2,
8783,8935,8949,0,
8681,8921,8950,1,
8936,0,8951,2,
8884,8919,8952,0,
8843,8915,8953,0,
8916,8917,8954,0,
8918,0,8955,2,
8637,8922,8956,0,
8921,0,8957,2,
6893,8923,8958,0,
8924,0,8959,2,
6907,8925,8960,0,
8843,8915,8961,1,
6913,8926,8962,0,
6914,8927,8963,0,
6938,8928,8964,0,
6953,8929,8965,0,
8930,0,8966,2,
8561,8905,8967,1,
6962,8933,8968,0,
158,8964,8969,1,
8938,0,8970,2,
8608,8939,8971,0,
8940,0,8972,2,
8941,0,8973,2,
8218,8942,8974,0,
8944,0,8975,2,
157,8945,8976,1,
369,8946,8977,0,
8947,0,8978,2,
8304,8948,8979,0,
375,8946,8980,0,
8949,0,8981,2,
148,8968,8982,1,
8953,0,8983,2,
927,8946,8984,0,
8954,0,8985,2,
912,8946,8986,0,
8952,0,8987,2,
380,8946,8988,0,
8728,8957,8989,0,
373,8946,8990,0,
8956,0,8991,2,
159,8958,8992,1,
136,8960,8993,1,
8952,7449,8994,1,
140,8963,8995,1,
384,8946,8996,0,
8744,8938,8997,1,
162,8965,8998,1,
8967,0,8999,2,
8863,8966,9000,0,
283,8946,9001,0,
8645,8967,9002,0,
8744,8970,9003,0,
8971,0,9004,2,
5978,8972,9005,0,
8793,8973,9006,0,
8973,8793,9007,1,
8974,0,9008,2,
8300,8974,9009,1,
8976,0,9010,2,
8977,0,9011,2,
8621,8978,9012,1,
8621,8978,9013,0,
8979,0,9014,2,
8980,0,9015,2,
8920,8983,9016,0,
8984,0,9017,2,
8955,8985,9018,0,
8986,0,9019,2,
8987,7449,9020,0,
8988,0,9021,2,
8990,0,9022,2,
8989,0,9023,2,
8962,8994,9024,1,
8994,0,9025,2,
8985,8955,9026,1,
8996,0,9027,2,
8997,0,9028,2,
8981,8895,9029,0,
8997,8899,9030,0,
8998,0,9031,2,
8645,8999,9032,1,
9000,0,9033,2,
8982,0,9034,2,
8981,8895,9035,1,
9002,0,9036,2,
9001,0,9037,2,
9003,0,9038,2,
8562,9004,9039,0,
9005,0,9040,2,
9006,0,9041,2,
8612,9007,9042,1,
8612,9007,9043,0,
8300,9008,9044,0,
9009,0,9045,2,
9009,8509,9046,1,
9011,6537,9047,0,
9013,0,9048,2,
9015,6556,9049,0,
9037,6736,9050,0,
9035,8743,9051,1,
8781,9033,9052,0,
9035,8694,9053,0,
9017,6649,9054,0,
9016,0,9055,2,
9019,6652,9056,0,
9018,0,9057,2,
9020,0,9058,2,
9021,6658,9059,0,
9022,6656,9060,0,
9024,0,9061,2,
9016,8950,9062,1,
8995,9026,9063,1,
8962,9025,9064,0,
8995,9026,9065,0,
9027,6711,9066,0,
9028,8859,9067,0,
9029,0,9068,2,
9030,0,9069,2,
9032,0,9070,2,
8932,9068,9071,0,
8819,9038,9072,0,
9039,0,9073,2,
9040,5981,9074,0,
8828,9041,9075,0,
9043,0,9076,2,
9044,0,9077,2,
9045,8456,9078,0,
6273,9047,9079,0,
9040,5981,9080,1,
9014,9048,9081,0,
6286,9049,9082,0,
9051,0,9083,2,
9053,0,9084,2,
9055,8950,9085,0,
6371,9054,9086,0,
8991,9057,9087,0,
6372,9056,9088,0,
7573,9058,9089,0,
6379,9060,9090,0,
6377,9059,9091,0,
9062,0,9092,2,
9064,0,9093,2,
9065,0,9094,2,
6420,9066,9095,0,
9067,0,9096,2,
6311,9050,9097,0,
9052,0,9098,2,
9098,8821,9099,0,
8934,9096,9100,0,
9072,0,9101,2,
9073,8750,9102,0,
9074,0,9103,2,
9075,0,9104,2,
9075,8943,9105,1,
8375,9077,9106,0,
9078,0,9107,2,
369,9080,9108,0,
157,9079,9109,1,
8662,9081,9110,1,
9081,0,9111,2,
158,9082,9112,1,
148,9097,9113,1,
9032,9071,9114,1,
9073,8750,9115,1,
927,9080,9116,0,
140,9086,9117,1,
912,9080,9118,0,
9085,0,9119,2,
9087,0,9120,2,
9087,8773,9121,1,
380,9080,9122,0,
136,9088,9123,1,
9089,0,9124,2,
9089,7413,9125,1,
159,9090,9126,1,
373,9080,9127,0,
375,9080,9128,0,
8993,9092,9129,1,
8993,9092,9130,0,
384,9080,9131,0,
8936,9072,9132,1,
162,9095,9133,1,
8931,9096,9134,0,
283,9080,9135,0,
9071,0,9136,2,
9099,0,9137,2,
8951,9101,9138,0,
9102,0,9139,2,
5985,9103,9140,0,
9104,8943,9141,0,
9105,0,9142,2,
9106,0,9143,2,
8460,9106,9144,1,
9108,0,9145,2,
9109,0,9146,2,
9110,0,9147,2,
8662,9111,9148,0,
9112,0,9149,2,
9070,9136,9150,0,
9023,9119,9151,0,
9113,0,9152,2,
9114,0,9153,2,
9115,8628,9154,1,
9115,8628,9155,0,
9116,0,9156,2,
9118,0,9157,2,
9117,0,9158,2,
9122,0,9159,2,
9121,0,9160,2,
8773,9120,9161,0,
9123,0,9162,2,
9125,9091,9163,1,
9124,7413,9164,0,
9127,0,9165,2,
9126,0,9166,2,
9125,0,9167,2,
9128,0,9168,2,
9129,0,9169,2,
9130,0,9170,2,
9131,0,9171,2,
9133,0,9172,2,
9132,0,9173,2,
9132,8998,9174,0,
9134,0,9175,2,
8837,9114,9176,0,
9135,0,9177,2,
9138,0,9178,2,
8791,9139,9179,0,
9140,0,9180,2,
9141,0,9181,2,
8613,9142,9182,1,
8613,9142,9183,0,
8460,9143,9184,0,
9144,8655,9185,1,
9144,0,9186,2,
9145,5672,9187,0,
9148,0,9188,2,
8837,9153,9189,1,
9174,0,9190,2,
9177,5918,9191,0,
9155,0,9192,2,
9156,5795,9193,0,
9121,9158,9194,1,
9151,8803,9195,1,
9157,5801,9196,0,
9151,0,9197,2,
9160,9117,9198,0,
9161,0,9199,2,
9159,5806,9200,0,
9163,0,9201,2,
9164,0,9202,2,
9091,9167,9203,0,
9165,5816,9204,0,
9168,5822,9205,0,
9171,5895,9206,0,
9100,9137,9207,0,
9031,9173,9208,0,
9150,0,9209,2,
9176,0,9210,2,
9175,9069,9211,0,
8937,9178,9212,0,
9179,0,9213,2,
9180,6500,9214,0,
8975,9181,9215,0,
9183,0,9216,2,
9184,0,9217,2,
9186,8616,9218,0,
6279,9187,9219,0,
9180,6500,9220,1,
9036,9209,9221,0,
8868,9179,9222,1,
6378,9193,9223,0,
9197,8803,9224,0,
9195,0,9225,2,
6383,9196,9226,0,
9195,9162,9227,1,
6384,9200,9228,0,
9198,0,9229,2,
8851,9199,9230,0,
7515,9202,9231,0,
9203,0,9232,2,
6388,9204,9233,0,
6392,9205,9234,0,
9194,0,9235,2,
6419,9206,9236,0,
6315,9191,9237,0,
9189,0,9238,2,
9208,0,9239,2,
9207,0,9240,2,
9222,8722,9241,1,
9212,0,9242,2,
8908,9213,9243,0,
9214,0,9244,2,
9215,0,9245,2,
9046,9215,9246,1,
8571,9217,9247,0,
9218,0,9248,2,
369,9220,9249,0,
157,9219,9250,1,
9221,0,9251,2,
9211,9240,9252,0,
148,9237,9253,1,
9222,8671,9254,0,
927,9220,9255,0,
140,9223,9256,1,
9225,9123,9257,0,
9224,0,9258,2,
912,9220,9259,0,
136,9226,9260,1,
9230,0,9261,2,
7246,9228,9262,1,
9231,0,9263,2,
373,9220,9264,0,
375,9220,9265,0,
159,9233,9266,1,
158,9234,9267,1,
9228,7310,9268,0,
380,9220,9269,0,
9227,0,9270,2,
283,9220,9271,0,
384,9220,9272,0,
9051,9212,9273,1,
162,9236,9274,1,
9083,9242,9275,0,
9243,0,9276,2,
6787,9244,9277,0,
9046,9245,9278,0,
9246,8707,9279,1,
9246,0,9280,2,
9247,0,9281,2,
8657,9247,9282,1,
9249,0,9283,2,
8961,9267,9284,1,
9252,0,9285,2,
8886,9258,9286,0,
9154,9251,9287,0,
9241,0,9288,2,
9254,0,9289,2,
9256,0,9290,2,
9255,0,9291,2,
9260,0,9292,2,
9259,0,9293,2,
9257,0,9294,2,
9262,0,9295,2,
8889,9256,9296,0,
9265,0,9297,2,
9264,0,9298,2,
8959,9260,9299,0,
9266,0,9300,2,
8961,9267,9301,0,
9268,0,9302,2,
9269,0,9303,2,
9271,0,9304,2,
9272,0,9305,2,
9273,0,9306,2,
9274,0,9307,2,
9273,9133,9308,0,
9251,9154,9309,1,
9253,0,9310,2,
9308,0,9311,2,
9275,0,9312,2,
8909,9276,9313,0,
9277,0,9314,2,
9278,0,9315,2,
9280,8653,9316,0,
8709,9281,9317,0,
9282,8659,9318,1,
9282,8619,9319,0,
9283,6009,9320,0,
9309,9034,9321,1,
8924,9292,9322,1,
9287,0,9323,2,
8853,9290,9324,1,
9291,6121,9325,0,
9293,6123,9326,0,
9286,0,9327,2,
9263,9295,9328,1,
9296,0,9329,2,
9297,6132,9330,0,
9299,0,9331,2,
9298,6133,9332,0,
9263,9295,9333,0,
9301,0,9334,2,
9303,6138,9335,0,
9304,6167,9336,0,
9305,6191,9337,0,
9190,9285,9338,0,
9172,9306,9339,0,
9309,8982,9340,0,
9192,9323,9341,0,
9084,9312,9342,0,
9313,0,9343,2,
9314,6511,9344,1,
9107,9315,9345,0,
9316,0,9346,2,
9317,0,9347,2,
9314,6511,9348,0,
9318,0,9349,2,
9319,0,9350,2,
7021,9320,9351,0,
9321,0,9352,2,
9230,9324,9353,1,
9324,9261,9354,0,
9286,9322,9355,1,
7082,9325,9356,0,
9327,9322,9357,0,
7083,9326,9358,0,
7087,9330,9359,0,
7086,9332,9360,0,
9333,0,9361,2,
7090,9335,9362,0,
7107,9336,9363,0,
7119,9337,9364,0,
9340,0,9365,2,
9339,0,9366,2,
9338,0,9367,2,
9342,0,9368,2,
9343,9042,9369,0,
384,9344,9370,0,
9345,0,9371,2,
9185,9345,9372,1,
9348,0,9373,2,
8710,9347,9374,0,
157,9351,9375,1,
369,9344,9376,0,
380,9344,9377,0,
162,9364,9378,1,
9241,9341,9379,1,
9341,0,9380,2,
9343,9042,9381,1,
912,9344,9382,0,
375,9344,9383,0,
927,9344,9384,0,
9353,0,9385,2,
283,9344,9386,0,
140,9356,9387,1,
9355,0,9388,2,
9354,0,9389,2,
136,9358,9390,1,
9357,0,9391,2,
159,9360,9392,1,
158,9359,9393,1,
9362,7464,9394,1,
373,9344,9395,0,
9302,9361,9396,0,
9362,7464,9397,0,
148,9363,9398,1,
9189,9342,9399,1,
9239,9367,9400,0,
9400,0,9401,2,
9378,0,9402,2,
9238,9368,9403,0,
9369,0,9404,2,
9370,0,9405,2,
9185,9371,9406,0,
9372,0,9407,2,
9372,8873,9408,1,
9374,0,9409,2,
6806,9373,9410,0,
8832,9374,9411,1,
9376,0,9412,2,
9377,0,9413,2,
9288,9380,9414,0,
9381,0,9415,2,
8846,9381,9416,0,
9382,0,9417,2,
9383,0,9418,2,
9384,0,9419,2,
9386,0,9420,2,
9329,9389,9421,0,
9387,9061,9422,1,
9331,9391,9423,0,
9390,9063,9424,1,
9387,9061,9425,0,
9393,9169,9426,1,
9392,0,9427,2,
9390,9063,9428,0,
9395,0,9429,2,
9394,9396,9430,1,
9396,0,9431,2,
9393,9129,9432,0,
9397,0,9433,2,
9399,0,9434,2,
9379,9113,9435,0,
9274,9399,9436,0,
9379,9152,9437,1,
9403,0,9438,2,
9076,9404,9439,0,
9405,5997,9440,0,
9406,0,9441,2,
9407,8830,9442,0,
9410,0,9443,2,
8832,9409,9444,0,
9411,0,9445,2,
9411,8712,9446,1,
9412,6017,9447,0,
9413,6032,9448,0,
9414,0,9449,2,
8846,9415,9450,1,
9416,0,9451,2,
9417,6097,9452,0,
9418,6103,9453,0,
9419,6107,9454,0,
9420,6130,9455,0,
9422,9421,9456,1,
9421,0,9457,2,
9424,9423,9458,1,
9425,0,9459,2,
9423,0,9460,2,
9426,0,9461,2,
9428,0,9462,2,
9429,6143,9463,0,
9430,0,9464,2,
9394,9431,9465,0,
9432,0,9466,2,
7575,9433,9467,0,
9311,9401,9468,0,
9307,9434,9469,0,
9435,0,9470,2,
9437,0,9471,2,
9436,0,9472,2,
9469,0,9473,2,
9210,9438,9474,0,
9439,0,9475,2,
7011,9440,9476,0,
9248,9441,9477,0,
9442,0,9478,2,
9443,5998,9479,0,
9444,0,9480,2,
9445,8661,9481,0,
9443,5998,9482,1,
7025,9447,9483,0,
7030,9448,9484,0,
9289,9449,9485,0,
9450,0,9486,2,
9439,9182,9487,1,
7078,9452,9488,0,
7079,9453,9489,0,
7081,9454,9490,0,
7088,9455,9491,0,
9456,0,9492,2,
9422,9457,9493,0,
9458,0,9494,2,
9093,9459,9495,0,
9424,9460,9496,0,
9094,9462,9497,0,
7092,9463,9498,0,
9170,9466,9499,0,
9465,0,9500,2,
9467,0,9501,2,
9468,0,9502,2,
9321,9474,9503,1,
9474,0,9504,2,
9182,9475,9505,0,
162,9476,9506,1,
9477,0,9507,2,
9318,9477,9508,1,
9479,0,9509,2,
8914,9480,9510,0,
9481,0,9511,2,
373,9482,9512,0,
157,9483,9513,1,
369,9482,9514,0,
9484,7343,9515,0,
380,9482,9516,0,
9485,0,9517,2,
9487,0,9518,2,
136,9488,9519,1,
912,9482,9520,0,
158,9489,9521,1,
375,9482,9522,0,
140,9490,9523,1,
927,9482,9524,0,
283,9482,9525,0,
148,9491,9526,1,
9493,0,9527,2,
9496,0,9528,2,
9495,0,9529,2,
159,9498,9530,1,
9484,7343,9531,1,
9497,0,9532,2,
9499,0,9533,2,
9450,9485,9534,1,
9366,9502,9535,0,
384,9482,9536,0,
9503,0,9537,2,
9504,9352,9538,0,
9505,0,9539,2,
9349,9507,9540,0,
9508,9010,9541,1,
9508,8976,9542,0,
9012,9510,9543,1,
6001,9509,9544,0,
9510,0,9545,2,
9512,0,9546,2,
9514,0,9547,2,
9515,0,9548,2,
9516,0,9549,2,
9536,0,9550,2,
9310,9534,9551,1,
9486,9517,9552,0,
8992,9518,9553,1,
8992,9518,9554,0,
9520,0,9555,2,
9519,9194,9556,0,
9521,9227,9557,0,
9522,0,9558,2,
9523,9201,9559,0,
9524,0,9560,2,
9525,0,9561,2,
9523,9201,9562,1,
9519,9235,9563,1,
9521,9270,9564,1,
9531,9467,9565,1,
9530,0,9566,2,
9531,9501,9567,0,
9253,9534,9568,0,
9526,0,9569,2,
9503,9378,9570,0,
9535,0,9571,2,
9472,9571,9572,0,
9564,9499,9573,1,
9537,9402,9574,0,
9563,9497,9575,1,
9538,0,9576,2,
9216,9539,9577,0,
9540,0,9578,2,
9541,0,9579,2,
9542,0,9580,2,
9543,0,9581,2,
9544,0,9582,2,
9546,6814,9583,0,
9012,9545,9584,0,
9547,6823,9585,0,
9549,6831,9586,0,
7440,9548,9587,0,
9552,0,9588,2,
9554,0,9589,2,
9556,0,9590,2,
9555,6898,9591,0,
9557,0,9592,2,
9558,6899,9593,0,
9559,0,9594,2,
9560,6906,9595,0,
9561,6915,9596,0,
9562,9495,9597,1,
9562,9529,9598,0,
9563,0,9599,2,
9564,0,9600,2,
9565,0,9601,2,
9567,0,9602,2,
9551,0,9603,2,
9570,0,9604,2,
7042,9550,9605,0,
9568,0,9606,2,
9572,0,9607,2,
9365,9576,9608,0,
9577,0,9609,2,
9574,0,9610,2,
9350,9578,9611,0,
8834,9581,9612,1,
9582,5673,9613,0,
8834,9581,9614,0,
6280,9583,9615,0,
9584,0,9616,2,
9582,5673,9617,1,
6287,9585,9618,0,
6297,9586,9619,0,
7216,9587,9620,1,
9587,0,9621,2,
162,9605,9622,1,
9451,9588,9623,0,
9279,9577,9624,1,
6386,9591,9625,0,
9229,9590,9626,0,
6387,9593,9627,0,
9294,9592,9628,0,
9232,9594,9629,0,
6393,9595,9630,0,
6395,9596,9631,0,
9597,0,9632,2,
9599,9532,9633,0,
9598,0,9634,2,
9600,9533,9635,0,
9619,9620,9636,1,
9437,9608,9637,1,
9279,9609,9638,0,
9611,0,9639,2,
9446,9611,9640,1,
9613,0,9641,2,
9614,0,9642,2,
159,9615,9643,1,
373,9617,9644,0,
369,9617,9645,0,
157,9618,9646,1,
7280,9621,9647,0,
9619,9620,9648,0,
380,9617,9649,0,
9623,0,9650,2,
9624,9166,9651,1,
9624,0,9652,2,
9626,0,9653,2,
9353,9626,9654,1,
136,9625,9655,1,
9628,0,9656,2,
9355,9628,9657,1,
158,9627,9658,1,
9328,9629,9659,1,
9629,0,9660,2,
140,9630,9661,1,
283,9617,9662,0,
148,9631,9663,1,
375,9617,9664,0,
912,9617,9665,0,
9633,0,9666,2,
9608,0,9667,2,
9635,0,9668,2,
927,9617,9669,0,
9553,9623,9670,1,
384,9617,9671,0,
9473,9607,9672,0,
9637,0,9673,2,
9638,0,9674,2,
9446,9639,9675,0,
9640,0,9676,2,
9640,9146,9677,1,
6006,9641,9678,0,
9616,9642,9679,0,
9644,0,9680,2,
9645,0,9681,2,
9647,0,9682,2,
9648,0,9683,2,
9649,0,9684,2,
9553,9650,9685,0,
9652,9126,9686,0,
9385,9653,9687,0,
9655,9654,9688,0,
9658,9657,9689,0,
9388,9656,9690,0,
9659,0,9691,2,
9328,9660,9692,0,
9662,0,9693,2,
9663,0,9694,2,
9664,0,9695,2,
9665,0,9696,2,
9654,0,9697,2,
9657,0,9698,2,
9471,9667,9699,0,
9669,0,9700,2,
9670,0,9701,2,
9671,0,9702,2,
9506,9637,9703,0,
9672,0,9704,2,
9506,9673,9705,1,
9346,9674,9706,0,
9675,0,9707,2,
9676,9109,9708,0,
9678,0,9709,2,
9679,0,9710,2,
9680,6013,9711,0,
9681,6022,9712,0,
9682,9683,9713,0,
9684,6042,9714,0,
9398,9701,9715,1,
9685,0,9716,2,
9686,0,9717,2,
9688,0,9718,2,
9687,0,9719,2,
9690,0,9720,2,
9689,0,9721,2,
9661,9691,9722,0,
9692,0,9723,2,
9693,6145,9724,0,
9695,6148,9725,0,
9696,6156,9726,0,
9661,9691,9727,1,
9655,9697,9728,1,
9658,9698,9729,1,
9699,0,9730,2,
9700,6176,9731,0,
9398,9701,9732,0,
9702,6194,9733,0,
9604,9704,9734,0,
9703,0,9735,2,
9704,9604,9736,0,
9710,9147,9737,1,
9706,0,9738,2,
9511,9707,9739,0,
9708,0,9740,2,
9709,6010,9741,1,
9147,9710,9742,0,
6285,9711,9743,0,
9709,6010,9744,0,
6288,9712,9745,0,
9713,0,9746,2,
9713,7442,9747,1,
6301,9714,9748,0,
9470,9730,9749,0,
9589,9716,9750,0,
9408,9706,9751,1,
9719,9718,9752,0,
9720,9721,9753,0,
9722,0,9754,2,
6399,9724,9755,0,
6402,9725,9756,0,
6408,9726,9757,0,
9728,0,9758,2,
9729,0,9759,2,
6422,9731,9760,0,
9568,9715,9761,0,
9732,0,9762,2,
9715,0,9763,2,
6434,9733,9764,0,
9734,0,9765,2,
9736,0,9766,2,
9705,0,9767,2,
136,9757,9768,1,
9551,9749,9769,1,
9748,9747,9770,1,
9765,9610,9771,0,
9408,9738,9772,0,
9612,9739,9773,1,
9739,0,9774,2,
373,9741,9775,0,
9737,8969,9776,1,
9742,0,9777,2,
159,9743,9778,1,
9744,0,9779,2,
369,9741,9780,0,
157,9745,9781,1,
9746,7442,9782,0,
380,9741,9783,0,
9747,0,9784,2,
162,9764,9785,1,
9750,0,9786,2,
9751,0,9787,2,
9651,9750,9788,1,
9751,9300,9789,1,
9752,0,9790,2,
9753,0,9791,2,
9723,9754,9792,0,
375,9741,9793,0,
148,9755,9794,1,
283,9741,9795,0,
912,9741,9796,0,
158,9756,9797,1,
927,9741,9798,0,
9737,8969,9799,0,
9749,0,9800,2,
140,9760,9801,1,
9761,0,9802,2,
384,9741,9803,0,
9767,9610,9804,0,
9790,9492,9805,1,
9622,9769,9806,0,
9622,9769,9807,1,
9804,9766,9808,0,
9770,0,9809,2,
9788,9569,9810,1,
9705,9771,9811,1,
9772,0,9812,2,
9773,0,9813,2,
9612,9774,9814,0,
9775,0,9815,2,
9375,9776,9816,1,
9188,9777,9817,0,
6019,9779,9818,0,
9780,0,9819,2,
9782,0,9820,2,
9783,0,9821,2,
9748,9784,9822,0,
9651,9786,9823,0,
9787,9266,9824,0,
9788,0,9825,2,
9790,9492,9826,0,
9494,9791,9827,0,
9792,0,9828,2,
9793,0,9829,2,
9794,0,9830,2,
9791,9494,9831,1,
9796,0,9832,2,
9795,0,9833,2,
9798,0,9834,2,
9375,9776,9835,0,
9799,0,9836,2,
9603,9800,9837,0,
9802,9762,9838,0,
9803,0,9839,2,
9806,0,9840,2,
9703,9807,9841,0,
9807,0,9842,2,
9811,0,9843,2,
9478,9812,9844,0,
9250,9813,9845,1,
9250,9813,9846,0,
124,9811,9847,0,
9814,0,9848,2,
9815,5688,9849,0,
9817,0,9850,2,
9817,8801,9851,1,
9818,6822,9852,1,
9819,5704,9853,0,
7556,9820,9854,0,
9821,5723,9855,0,
9822,0,9856,2,
9818,7040,9857,0,
9839,5921,9858,0,
9823,0,9859,2,
9825,9526,9860,0,
9824,0,9861,2,
9826,0,9862,2,
9827,0,9863,2,
9464,9828,9864,0,
9829,5861,9865,0,
9831,0,9866,2,
9768,9805,9867,1,
9833,5878,9868,0,
9832,5874,9869,0,
9768,9805,9870,0,
9797,9831,9871,0,
9834,5892,9872,0,
9835,0,9873,2,
9828,9464,9874,1,
9837,9715,9875,0,
9808,0,9876,2,
9807,9808,9877,0,
9837,0,9878,2,
384,9852,9879,0,
9528,9863,9880,0,
371,9843,9881,0,
655,9843,9882,0,
159,3302,9883,1,
9883,9843,9884,0,
159,9884,9885,1,
115,2704,9886,1,
9886,9843,9887,0,
115,9887,9888,1,
9844,0,9889,2,
367,9843,9890,0,
286,9843,9891,0,
123,2710,9892,1,
9892,9843,9893,0,
123,9893,9894,1,
106,3704,9895,1,
9895,9843,9896,0,
106,9896,9897,1,
121,2712,9898,1,
9898,9843,9899,0,
121,9899,9900,1,
654,9843,9901,0,
285,9843,9902,0,
9846,0,9903,2,
656,9843,9904,0,
670,9843,9905,0,
6284,9849,9906,0,
377,9843,9907,0,
8801,9850,9908,0,
9851,9149,9909,1,
9851,0,9910,2,
373,9852,9911,0,
111,3705,9912,1,
9912,9843,9913,0,
111,9913,9914,1,
1569,9843,9915,0,
661,9843,9916,0,
6289,9853,9917,0,
1629,9843,9918,0,
9843,2572,9919,0,
265,9843,9920,0,
382,9843,9921,0,
5468,9843,9922,1,
5468,9843,9923,0,
9854,0,9924,2,
6300,9855,9925,0,
380,9852,9926,0,
9857,0,9927,2,
9841,0,9928,2,
9717,9859,9929,0,
9541,9844,9930,1,
9860,0,9931,2,
375,9852,9932,0,
9527,9862,9933,0,
912,9852,9934,0,
369,9852,9935,0,
9864,0,9936,2,
6403,9865,9937,0,
927,9852,9938,0,
283,9852,9939,0,
9797,9866,9940,1,
6413,9868,9941,0,
6415,9869,9942,0,
9870,0,9943,2,
9871,0,9944,2,
9801,9874,9945,1,
6423,9872,9946,0,
384,9857,9947,0,
9836,9873,9948,0,
9801,9874,9949,0,
9875,0,9950,2,
9878,9606,9951,0,
6312,9857,9952,0,
9876,9735,9953,0,
9877,0,9954,2,
6316,9858,9955,0,
9840,9928,9956,0,
9879,0,9957,2,
140,9946,9958,1,
9953,9842,9959,1,
9881,0,9960,2,
9885,2703,9961,0,
9882,0,9962,2,
9888,0,9963,2,
9579,9889,9964,0,
9890,0,9965,2,
9894,0,9966,2,
9891,0,9967,2,
9952,0,9968,2,
9897,0,9969,2,
9901,0,9970,2,
9900,0,9971,2,
9902,0,9972,2,
9848,9903,9973,0,
9904,0,9974,2,
9905,0,9975,2,
159,9906,9976,1,
9907,0,9977,2,
9908,0,9978,2,
9513,9909,9979,0,
9910,9112,9980,0,
9911,0,9981,2,
9914,0,9982,2,
9915,0,9983,2,
9916,0,9984,2,
157,9917,9985,1,
9918,0,9986,2,
9920,0,9987,2,
9919,0,9988,2,
9921,0,9989,2,
9924,7443,9990,1,
9924,7443,9991,0,
9926,0,9992,2,
9838,9950,9993,0,
136,9942,9994,1,
9927,6553,9995,0,
9763,9951,9996,1,
9929,0,9997,2,
9930,9427,9998,1,
9789,9929,9999,1,
9933,0,10000,2,
9930,9392,10001,0,
9932,0,10002,2,
9935,0,10003,2,
9934,0,10004,2,
9880,0,10005,2,
9500,9936,10006,0,
158,9937,10007,1,
9880,9575,10008,1,
9938,0,10009,2,
9940,0,10010,2,
9939,0,10011,2,
148,9941,10012,1,
9909,0,10013,2,
9947,6312,10014,0,
9948,0,10015,2,
9949,0,10016,2,
162,9955,10017,1,
9956,9954,10018,0,
9993,0,10019,2,
9959,0,10020,2,
9843,9959,10021,0,
371,9959,10022,0,
372,9959,10023,0,
9961,0,10024,2,
655,9959,10025,0,
9964,0,10026,2,
9963,2400,10027,0,
368,9959,10028,0,
670,9959,10029,0,
406,9959,10030,0,
386,9959,10031,0,
656,9959,10032,0,
9995,0,10033,2,
9966,2711,10034,0,
367,9959,10035,0,
284,9959,10036,0,
9969,3582,10037,0,
654,9959,10038,0,
9971,2374,10039,0,
285,9959,10040,0,
283,9968,10041,0,
9816,9973,10042,1,
286,9959,10043,0,
9976,0,10044,2,
658,9959,10045,0,
8876,9978,10046,0,
9979,0,10047,2,
9980,0,10048,2,
1569,9959,10049,0,
9981,6024,10050,0,
377,9959,10051,0,
9982,3614,10052,0,
926,9959,10053,0,
373,9968,10054,0,
9985,0,10055,2,
1629,9959,10056,0,
661,9959,10057,0,
381,9959,10058,0,
265,9959,10059,0,
382,9959,10060,0,
9959,5708,10061,0,
9990,9925,10062,1,
9991,0,10063,2,
9925,9990,10064,0,
9992,6045,10065,0,
10000,9632,10066,1,
9789,9997,10067,0,
9998,0,10068,2,
9999,9694,10069,1,
9999,0,10070,2,
369,9968,10071,0,
10001,0,10072,2,
10000,9632,10073,0,
10002,6150,10074,0,
9575,10005,10075,0,
10003,6154,10076,0,
10004,6159,10077,0,
375,9968,10078,0,
10006,0,10079,2,
10007,0,10080,2,
912,9968,10081,0,
10009,6174,10082,0,
10008,0,10083,2,
10011,6181,10084,0,
10012,0,10085,2,
9513,10013,10086,1,
9995,384,10087,0,
10014,0,10088,2,
9973,0,10089,2,
384,9968,10090,0,
9996,9785,10091,0,
9996,9785,10092,1,
9957,5927,10093,0,
10018,0,10094,2,
10091,0,10095,2,
10079,9601,10096,1,
10018,10092,10097,1,
9811,10020,10098,1,
10023,0,10099,2,
10022,0,10100,2,
10025,0,10101,2,
117,10024,10102,0,
10027,0,10103,2,
9580,10026,10104,0,
10028,0,10105,2,
10029,0,10106,2,
10032,0,10107,2,
10030,0,10108,2,
10031,0,10109,2,
10033,9968,10110,0,
10034,0,10111,2,
9847,10020,10112,0,
10035,0,10113,2,
10024,117,10114,1,
10036,0,10115,2,
10037,0,10116,2,
10040,0,10117,2,
10038,0,10118,2,
10039,0,10119,2,
10043,0,10120,2,
10042,0,10121,2,
10041,0,10122,2,
10045,0,10123,2,
10046,0,10124,2,
10048,10047,10125,0,
10049,0,10126,2,
7145,10050,10127,0,
10051,0,10128,2,
10052,0,10129,2,
10053,0,10130,2,
10054,0,10131,2,
10056,0,10132,2,
10057,0,10133,2,
10058,0,10134,2,
10059,0,10135,2,
10060,0,10136,2,
5708,10020,10137,1,
10061,0,10138,2,
7495,10063,10139,0,
7284,10062,10140,0,
10062,0,10141,2,
10064,0,10142,2,
10065,663,10143,0,
10066,9994,10144,1,
10086,9948,10145,1,
7194,10093,10146,0,
10067,0,10147,2,
9810,10019,10148,0,
10070,9663,10149,0,
10071,0,10150,2,
10073,0,10151,2,
7184,10074,10152,0,
10075,0,10153,2,
10078,0,10154,2,
7185,10076,10155,0,
7186,10077,10156,0,
9601,10079,10157,0,
10008,10080,10158,1,
10081,0,10159,2,
10083,10007,10160,0,
7191,10082,10161,0,
7193,10084,10162,0,
10066,9994,10163,0,
10087,0,10164,2,
10086,0,10165,2,
9816,10089,10166,0,
10090,0,10167,2,
10019,9810,10168,1,
10094,10092,10169,0,
10129,111,10170,1,
140,10161,10171,1,
10017,10168,10172,0,
9811,10097,10173,0,
10097,0,10174,2,
373,10098,10175,0,
369,10098,10176,0,
10104,0,10177,2,
10103,115,10178,1,
283,10098,10179,0,
115,10103,10180,0,
375,10098,10181,0,
10110,0,10182,2,
123,10111,10183,0,
10111,123,10184,1,
10114,0,10185,2,
10116,106,10186,1,
121,10119,10187,0,
10119,121,10188,1,
10122,7024,10189,0,
912,10098,10190,0,
10124,9284,10191,1,
106,10116,10192,0,
927,10098,10193,0,
159,10127,10194,1,
10131,7028,10195,0,
111,10129,10196,0,
380,10098,10197,0,
10137,0,10198,2,
10137,9923,10199,1,
10143,7154,10200,1,
10140,0,10201,2,
10139,0,10202,2,
7284,10141,10203,1,
10143,7222,10204,0,
10125,0,10205,2,
9284,10124,10206,0,
9861,10147,10207,0,
10148,0,10208,2,
10149,0,10209,2,
9677,10104,10210,1,
158,10152,10211,1,
10150,7101,10212,0,
9634,10151,10213,0,
9666,10153,10214,0,
157,10155,10215,1,
136,10156,10216,1,
10154,7104,10217,0,
10157,0,10218,2,
10159,7111,10219,0,
10158,0,10220,2,
10160,0,10221,2,
10163,0,10222,2,
148,10162,10223,1,
10096,9958,10224,1,
10096,9958,10225,0,
10168,10017,10226,1,
10165,10015,10227,0,
10088,10164,10228,0,
10167,7123,10229,0,
162,10146,10230,1,
10166,0,10231,2,
10228,7122,10232,0,
10169,0,10233,2,
9636,10171,10234,1,
10230,0,10235,2,
10173,0,10236,2,
9959,10174,10237,1,
372,10174,10238,0,
10175,0,10239,2,
371,10174,10240,0,
10176,0,10241,2,
655,10174,10242,0,
9677,10177,10243,0,
286,10174,10244,0,
204,10174,10245,0,
285,10174,10246,0,
10179,0,10247,2,
670,10174,10248,0,
368,10174,10249,0,
406,10174,10250,0,
10181,0,10251,2,
283,10182,10252,0,
367,10174,10253,0,
284,10174,10254,0,
386,10174,10255,0,
654,10174,10256,0,
950,10189,10257,0,
10190,0,10258,2,
656,10174,10259,0,
377,10174,10260,0,
658,10174,10261,0,
10191,10125,10262,1,
373,10182,10263,0,
1569,10174,10264,0,
10193,0,10265,2,
10170,0,10266,2,
951,10195,10267,0,
661,10174,10268,0,
926,10174,10269,0,
10197,0,10270,2,
1629,10174,10271,0,
381,10174,10272,0,
265,10174,10273,0,
9923,10198,10274,0,
382,10174,10275,0,
5711,10174,10276,1,
10199,0,10277,2,
5711,10174,10278,0,
927,10182,10279,0,
10200,0,10280,2,
10142,10201,10281,0,
10203,0,10282,2,
10204,0,10283,2,
10226,0,10284,2,
10191,10205,10285,0,
10206,0,10286,2,
10207,0,10287,2,
9931,10208,10288,0,
375,10182,10289,0,
369,10182,10290,0,
9998,10207,10291,1,
912,10182,10292,0,
10210,0,10293,2,
10210,9566,10294,1,
993,10212,10295,0,
10213,0,10296,2,
9727,10216,10297,1,
10211,0,10298,2,
10215,0,10299,2,
10214,0,10300,2,
994,10217,10301,0,
9727,10216,10302,0,
9602,10218,10303,0,
9758,10211,10304,0,
9759,10215,10305,0,
2118,10219,10306,0,
9636,10171,10307,0,
10225,0,10308,2,
10229,666,10309,0,
10172,0,10310,2,
10227,0,10311,2,
10095,10233,10312,0,
10291,9830,10313,1,
162,10309,10314,1,
10069,10288,10315,1,
9959,10236,10316,0,
10237,10021,10317,1,
10238,0,10318,2,
9960,10239,10319,0,
10240,0,10320,2,
10242,0,10321,2,
9965,10241,10322,0,
10243,0,10323,2,
10244,0,10324,2,
10245,0,10325,2,
9967,10247,10326,0,
10246,0,10327,2,
10248,0,10328,2,
10250,0,10329,2,
10249,0,10330,2,
10252,0,10331,2,
9972,10251,10332,0,
10254,0,10333,2,
10253,0,10334,2,
10255,0,10335,2,
10256,0,10336,2,
148,10257,10337,1,
10259,0,10338,2,
9977,10258,10339,0,
10260,0,10340,2,
10263,0,10341,2,
10262,0,10342,2,
10261,0,10343,2,
10264,0,10344,2,
9984,10265,10345,0,
159,10267,10346,1,
10268,0,10347,2,
10269,0,10348,2,
9987,10270,10349,0,
10271,0,10350,2,
10272,0,10351,2,
10273,0,10352,2,
10274,0,10353,2,
10275,0,10354,2,
10278,0,10355,2,
10279,0,10356,2,
10202,10280,10357,1,
10202,10280,10358,0,
10281,0,10359,2,
9729,10299,10360,1,
10285,0,10361,2,
9334,10286,10362,0,
10068,10287,10363,0,
10288,0,10364,2,
10289,0,10365,2,
10290,0,10366,2,
10293,9530,10367,0,
10292,0,10368,2,
10291,9794,10369,0,
157,10295,10370,1,
9728,10298,10371,1,
10296,10297,10372,0,
10302,0,10373,2,
158,10301,10374,1,
10304,0,10375,2,
10303,0,10376,2,
136,10306,10377,1,
10305,0,10378,2,
10307,0,10379,2,
10296,10297,10380,1,
10232,6203,10381,0,
10312,0,10382,2,
10376,10234,10383,1,
10315,10235,10384,1,
10312,10284,10385,1,
373,10317,10386,0,
10318,10100,10387,0,
10319,10099,10388,0,
10322,10105,10389,0,
9740,10323,10390,0,
369,10317,10391,0,
10326,10109,10392,0,
10317,0,10393,2,
375,10317,10394,0,
10330,10113,10395,0,
10331,6015,10396,0,
10332,10115,10397,0,
283,10317,10398,0,
10333,10117,10399,0,
10335,10120,10400,0,
10339,10123,10401,0,
912,10317,10402,0,
10341,6025,10403,0,
9646,10342,10404,1,
10343,10128,10405,0,
10345,10130,10406,0,
927,10317,10407,0,
10348,10133,10408,0,
10349,10134,10409,0,
380,10317,10410,0,
10351,10135,10411,0,
10138,10353,10412,0,
6040,10356,10413,0,
10357,10281,10414,1,
10357,10359,10415,0,
10358,0,10416,2,
10374,10144,10417,1,
10214,10371,10418,1,
10315,0,10419,2,
9426,10362,10420,1,
9646,10342,10421,0,
10362,0,10422,2,
10363,0,10423,2,
10069,10364,10424,0,
10365,6157,10425,0,
10366,6161,10426,0,
10313,0,10427,2,
10368,906,10428,0,
10367,0,10429,2,
10370,10158,10430,0,
10371,10300,10431,0,
10372,0,10432,2,
10369,0,10433,2,
10374,10144,10434,0,
10370,10220,10435,1,
10234,10376,10436,0,
10377,10224,10437,1,
10377,10224,10438,0,
10314,0,10439,2,
162,10381,10440,1,
10404,10194,10441,1,
10382,10226,10442,0,
10097,10385,10443,1,
10174,10385,10444,0,
10385,0,10445,2,
10386,0,10446,2,
372,10385,10447,0,
159,10388,10448,1,
371,10385,10449,0,
386,10385,10450,0,
267,10385,10451,0,
284,10385,10452,0,
655,10385,10453,0,
286,10385,10454,0,
9845,10390,10455,1,
157,10389,10456,1,
10390,0,10457,2,
204,10385,10458,0,
10391,0,10459,2,
148,10392,10460,1,
10112,10393,10461,0,
368,10385,10462,0,
406,10385,10463,0,
10394,0,10464,2,
10398,0,10465,2,
7144,10396,10466,0,
158,10397,10467,1,
654,10385,10468,0,
670,10385,10469,0,
367,10385,10470,0,
285,10385,10471,0,
656,10385,10472,0,
136,10401,10473,1,
658,10385,10474,0,
10402,0,10475,2,
377,10385,10476,0,
10404,10194,10477,0,
7146,10403,10478,0,
140,10406,10479,1,
926,10385,10480,0,
1569,10385,10481,0,
10407,0,10482,2,
1629,10385,10483,0,
661,10385,10484,0,
10409,0,10485,2,
10410,0,10486,2,
10409,9988,10487,0,
381,10385,10488,0,
382,10385,10489,0,
265,10385,10490,0,
10276,10412,10491,1,
10412,0,10492,2,
5038,10385,10493,1,
10385,5038,10494,0,
7152,10413,10495,0,
10414,0,10496,2,
10415,0,10497,2,
10283,10416,10498,0,
10419,10230,10499,0,
10421,0,10500,2,
9461,10422,10501,0,
10072,10423,10502,0,
10424,0,10503,2,
7187,10425,10504,0,
7189,10426,10505,0,
10428,7192,10506,0,
10373,10432,10507,0,
10430,0,10508,2,
10431,0,10509,2,
10434,0,10510,2,
10418,0,10511,2,
10435,0,10512,2,
10436,0,10513,2,
10438,0,10514,2,
10440,0,10515,2,
10442,0,10516,2,
10209,10503,10517,0,
10379,10513,10518,0,
10485,9919,10519,1,
10443,0,10520,2,
10444,0,10521,2,
10316,10443,10522,1,
10446,9962,10523,0,
10447,0,10524,2,
10102,10448,10525,0,
10449,0,10526,2,
10450,0,10527,2,
10452,0,10528,2,
10451,0,10529,2,
10453,0,10530,2,
10454,0,10531,2,
10456,10180,10532,1,
10455,0,10533,2,
9845,10457,10534,0,
10458,0,10535,2,
10460,10183,10536,1,
10459,9970,10537,0,
10448,10102,10538,1,
10463,0,10539,2,
10462,0,10540,2,
10180,10456,10541,0,
10183,10460,10542,0,
10464,9974,10543,0,
148,10466,10544,1,
10465,9975,10545,0,
10468,0,10546,2,
10187,10467,10547,0,
10470,0,10548,2,
10469,0,10549,2,
10471,0,10550,2,
10467,10187,10551,1,
10472,0,10552,2,
10473,10192,10553,1,
10474,0,10554,2,
10476,0,10555,2,
10475,9983,10556,0,
10192,10473,10557,0,
159,10478,10558,1,
10477,0,10559,2,
10479,10196,10560,1,
10480,0,10561,2,
10481,0,10562,2,
10482,9986,10563,0,
10196,10479,10564,0,
10483,0,10565,2,
10484,0,10566,2,
5464,10487,10567,1,
10486,9989,10568,0,
10488,0,10569,2,
10487,5464,10570,0,
10490,0,10571,2,
10489,0,10572,2,
10276,10492,10573,0,
10491,0,10574,2,
10494,0,10575,2,
140,10495,10576,1,
7445,10498,10577,1,
10498,0,10578,2,
10499,0,10579,2,
10361,10500,10580,0,
10501,0,10581,2,
10502,0,10582,2,
158,10504,10583,1,
157,10505,10584,1,
136,10506,10585,1,
10294,10502,10586,1,
10221,10508,10587,0,
10375,10509,10588,0,
10507,0,10589,2,
10222,10510,10590,0,
10308,10514,10591,0,
10310,10516,10592,0,
10380,10590,10593,1,
10576,9809,10594,1,
10591,0,10595,2,
10316,10520,10596,0,
10522,0,10597,2,
10387,10523,10598,0,
10524,10320,10599,0,
10527,10324,10600,0,
10528,10327,10601,0,
10529,10325,10602,0,
9643,10533,10603,0,
10534,0,10604,2,
10329,10535,10605,0,
10395,10537,10606,0,
10536,162,10607,0,
10538,0,10608,2,
10540,10334,10609,0,
10399,10543,10610,0,
10536,0,10611,2,
10400,10545,10612,0,
10580,10420,10613,1,
10554,10340,10614,0,
10405,10556,10615,0,
10557,10170,10616,0,
10557,0,10617,2,
10561,10347,10618,0,
10408,10563,10619,0,
10411,10568,10620,0,
10569,10352,10621,0,
10570,0,10622,2,
10573,0,10623,2,
10576,9809,10624,0,
10577,0,10625,2,
7445,10578,10626,0,
10518,0,10627,2,
10418,10587,10628,1,
10580,0,10629,2,
10294,10582,10630,0,
10517,0,10631,2,
10583,9867,10632,0,
10010,10584,10633,0,
9643,10533,10634,1,
10585,9945,10635,1,
10586,10085,10636,1,
10584,0,10637,2,
10586,0,10638,2,
10585,9945,10639,0,
10588,0,10640,2,
10587,0,10641,2,
10583,9867,10642,1,
10590,0,10643,2,
10313,10517,10644,1,
10592,0,10645,2,
10380,10643,10646,0,
10595,10383,10647,1,
10384,10592,10648,1,
10596,0,10649,2,
373,10597,10650,0,
159,10598,10651,1,
283,10597,10652,0,
384,10597,10653,0,
375,10597,10654,0,
369,10597,10655,0,
10603,0,10656,2,
10607,0,10657,2,
157,10606,10658,1,
158,10610,10659,1,
148,10612,10660,1,
912,10597,10661,0,
10613,0,10662,2,
136,10615,10663,1,
10616,0,10664,2,
10617,10266,10665,0,
927,10597,10666,0,
140,10619,10667,1,
380,10597,10668,0,
10355,10623,10669,0,
10624,0,10670,2,
10626,0,10671,2,
10644,10515,10672,1,
10644,10440,10673,0,
10594,10518,10674,1,
10629,10420,10675,0,
10630,0,10676,2,
10427,10631,10677,0,
10632,0,10678,2,
10633,0,10679,2,
10594,10627,10680,0,
10638,10012,10681,0,
9940,10637,10682,1,
10635,10589,10683,0,
10511,10641,10684,0,
10642,10640,10685,0,
10639,0,10686,2,
10593,0,10687,2,
10635,10507,10688,1,
10642,10588,10689,1,
10383,10595,10690,0,
10688,0,10691,2,
10384,10645,10692,0,
10689,0,10693,2,
10685,0,10694,2,
10690,0,10695,2,
10016,10686,10696,0,
10648,0,10697,2,
10649,10521,10698,0,
10650,0,10699,2,
10525,10651,10700,0,
10652,0,10701,2,
10654,0,10702,2,
10653,0,10703,2,
10655,0,10704,2,
10604,10656,10705,0,
10659,10547,10706,1,
10651,10525,10707,1,
10660,0,10708,2,
10547,10659,10709,0,
10661,0,10710,2,
9781,10662,10711,1,
9781,10662,10712,0,
10665,0,10713,2,
10666,0,10714,2,
10667,10564,10715,1,
10564,10667,10716,0,
10668,0,10717,2,
10669,0,10718,2,
10493,10669,10719,1,
9856,10670,10720,0,
9943,10678,10721,0,
10672,0,10722,2,
10684,0,10723,2,
10673,0,10724,2,
10675,0,10725,2,
10677,0,10726,2,
10429,10676,10727,0,
10674,0,10728,2,
9944,10679,10729,0,
10680,0,10730,2,
10681,0,10731,2,
10683,0,10732,2,
10646,0,10733,2,
10692,0,10734,2,
10581,10725,10735,0,
10445,10697,10736,1,
10698,0,10737,2,
10385,10697,10738,0,
10699,10101,10739,0,
10178,10700,10740,1,
372,10697,10741,0,
10700,10178,10742,0,
371,10697,10743,0,
386,10697,10744,0,
10701,10106,10745,0,
10702,10107,10746,0,
10108,10703,10747,0,
267,10697,10748,0,
204,10697,10749,0,
655,10697,10750,0,
10705,0,10751,2,
10704,10118,10752,0,
367,10697,10753,0,
286,10697,10754,0,
670,10697,10755,0,
368,10697,10756,0,
654,10697,10757,0,
406,10697,10758,0,
284,10697,10759,0,
10706,0,10760,2,
10707,0,10761,2,
285,10697,10762,0,
658,10697,10763,0,
10710,10126,10764,0,
656,10697,10765,0,
10711,0,10766,2,
10558,10711,10767,0,
10712,0,10768,2,
377,10697,10769,0,
10714,10132,10770,0,
1569,10697,10771,0,
661,10697,10772,0,
926,10697,10773,0,
1629,10697,10774,0,
10717,10136,10775,0,
265,10697,10776,0,
381,10697,10777,0,
382,10697,10778,0,
10493,10718,10779,0,
5717,10697,10780,1,
10719,0,10781,2,
10697,5717,10782,0,
10720,0,10783,2,
10203,10720,10784,1,
10417,10721,10785,1,
10634,10727,10786,1,
10433,10726,10787,0,
10721,0,10788,2,
10727,0,10789,2,
10646,10691,10790,0,
10729,0,10791,2,
10696,0,10792,2,
10435,10729,10793,1,
10579,10734,10794,0,
10736,0,10795,2,
10738,0,10796,2,
10599,10739,10797,0,
10741,0,10798,2,
10742,0,10799,2,
10743,0,10800,2,
10600,10745,10801,0,
10744,0,10802,2,
10602,10747,10803,0,
10601,10746,10804,0,
10748,0,10805,2,
10749,0,10806,2,
10750,0,10807,2,
10753,0,10808,2,
10609,10752,10809,0,
10751,10121,10810,1,
10756,0,10811,2,
10754,0,10812,2,
10755,0,10813,2,
10757,0,10814,2,
10759,0,10815,2,
10758,0,10816,2,
10762,0,10817,2,
10763,0,10818,2,
10614,10764,10819,0,
10765,0,10820,2,
10735,9573,10821,1,
10558,10766,10822,1,
10767,0,10823,2,
10769,0,10824,2,
10618,10770,10825,0,
10771,0,10826,2,
10772,0,10827,2,
10773,0,10828,2,
10774,0,10829,2,
10621,10775,10830,0,
10777,0,10831,2,
10776,0,10832,2,
10779,0,10833,2,
10778,0,10834,2,
10782,0,10835,2,
10282,10783,10836,0,
10784,10496,10837,0,
10735,0,10838,2,
10785,0,10839,2,
10787,0,10840,2,
10786,0,10841,2,
10634,10789,10842,0,
10417,10788,10843,0,
10121,10751,10844,0,
10790,0,10845,2,
10512,10791,10846,0,
10437,10792,10847,0,
10636,10787,10848,1,
10792,10437,10849,1,
10794,0,10850,2,
10737,10795,10851,0,
10672,10794,10852,1,
10737,10795,10853,1,
159,10797,10854,1,
10798,10526,10855,0,
10802,10531,10856,0,
148,10801,10857,1,
162,10803,10858,1,
158,10804,10859,1,
10605,10805,10860,0,
10539,10806,10861,0,
10810,9778,10862,1,
10810,9778,10863,0,
157,10809,10864,1,
10811,10548,10865,0,
10815,10550,10866,0,
10818,10555,10867,0,
136,10819,10868,1,
10821,10055,10869,1,
10822,0,10870,2,
10768,10823,10871,0,
140,10825,10872,1,
10828,10566,10873,0,
10830,9922,10874,1,
9922,10830,10875,0,
10831,10571,10876,0,
10575,10833,10877,0,
10836,10496,10878,0,
10837,10625,10879,0,
10845,10732,10880,0,
10846,0,10881,2,
10223,10841,10882,1,
10836,0,10883,2,
10838,9573,10884,0,
10821,0,10885,2,
10636,10840,10886,0,
10848,0,10887,2,
10223,10841,10888,0,
10843,0,10889,2,
10842,0,10890,2,
10847,0,10891,2,
10848,10439,10892,1,
10844,0,10893,2,
10722,10850,10894,0,
10851,0,10895,2,
10852,0,10896,2,
373,10853,10897,0,
10854,10740,10898,0,
10697,10852,10899,0,
283,10853,10900,0,
372,10852,10901,0,
384,10853,10902,0,
267,10852,10903,0,
10857,0,10904,2,
10859,0,10905,2,
371,10852,10906,0,
10461,10858,10907,0,
10184,10858,10908,0,
368,10852,10909,0,
386,10852,10910,0,
286,10852,10911,0,
10857,10114,10912,0,
369,10853,10913,0,
10544,10862,10914,0,
654,10852,10915,0,
375,10853,10916,0,
204,10852,10917,0,
10863,0,10918,2,
367,10852,10919,0,
10186,10859,10920,0,
655,10852,10921,0,
670,10852,10922,0,
10854,10740,10923,1,
284,10852,10924,0,
406,10852,10925,0,
912,10853,10926,0,
285,10852,10927,0,
10868,0,10928,2,
10868,10170,10929,0,
10869,0,10930,2,
656,10852,10931,0,
658,10852,10932,0,
377,10852,10933,0,
10872,9919,10934,1,
926,10852,10935,0,
927,10853,10936,0,
9919,10872,10937,0,
1569,10852,10938,0,
661,10852,10939,0,
1629,10852,10940,0,
381,10852,10941,0,
380,10853,10942,0,
10875,0,10943,2,
382,10852,10944,0,
265,10852,10945,0,
10780,10877,10946,1,
10877,0,10947,2,
10852,6304,10948,0,
10878,0,10949,2,
10879,7613,10950,0,
10544,10862,10951,1,
10231,10893,10952,0,
10884,0,10953,2,
10885,9985,10954,0,
10346,10869,10955,0,
10871,0,10956,2,
10887,10314,10957,0,
10888,0,10958,2,
10886,0,10959,2,
10894,0,10960,2,
10895,10796,10961,0,
10648,10896,10962,1,
10897,0,10963,2,
10899,0,10964,2,
10898,0,10965,2,
10901,0,10966,2,
10900,0,10967,2,
10902,0,10968,2,
10904,10185,10969,0,
10903,0,10970,2,
10908,0,10971,2,
10907,0,10972,2,
10186,10905,10973,1,
10906,0,10974,2,
10909,0,10975,2,
10952,10145,10976,1,
10913,0,10977,2,
10911,0,10978,2,
10910,0,10979,2,
10915,0,10980,2,
10914,0,10981,2,
10920,0,10982,2,
10919,0,10983,2,
10916,0,10984,2,
10917,0,10985,2,
10922,0,10986,2,
10921,0,10987,2,
10924,0,10988,2,
10925,0,10989,2,
10926,0,10990,2,
10927,0,10991,2,
10664,10928,10992,0,
10929,0,10993,2,
10346,10930,10994,1,
10931,0,10995,2,
10932,0,10996,2,
10933,0,10997,2,
10934,10716,10998,1,
10564,10934,10999,0,
10935,0,11000,2,
10936,0,11001,2,
10937,0,11002,2,
10938,0,11003,2,
10939,0,11004,2,
10940,0,11005,2,
10941,0,11006,2,
10942,0,11007,2,
10945,0,11008,2,
10944,0,11009,2,
10780,10947,11010,0,
6304,10896,11011,1,
10946,0,11012,2,
10948,0,11013,2,
10949,10497,11014,0,
10950,7558,11015,0,
9668,10953,11016,0,
10955,0,11017,2,
10954,0,11018,2,
10912,0,11019,2,
10957,0,11020,2,
10952,0,11021,2,
10890,10958,11022,0,
10731,10959,11023,0,
10724,10960,11024,0,
10882,11023,11025,1,
10951,11022,11026,1,
10961,0,11027,2,
10961,10962,11028,1,
10963,10321,11029,0,
10799,10965,11030,0,
10966,10800,11031,0,
10967,10328,11032,0,
10536,10968,11033,0,
10860,10968,11034,0,
10969,0,11035,2,
10972,10971,11036,0,
10973,0,11037,2,
10976,10044,11038,1,
10975,10808,11039,0,
10979,10812,11040,0,
10977,10336,11041,0,
10918,10981,11042,0,
10984,10338,11043,0,
10816,10985,11044,0,
10973,10709,11045,1,
10988,10817,11046,0,
10990,10344,11047,0,
10992,0,11048,2,
10994,10871,11049,1,
10996,10824,11050,0,
10999,10667,11051,0,
10998,0,11052,2,
11001,10350,11053,0,
11000,10827,11054,0,
11007,10354,11055,0,
11006,10832,11056,0,
11010,0,11057,2,
11011,0,11058,2,
11014,0,11059,2,
11015,6841,11060,0,
11022,0,11061,2,
10145,11021,11062,0,
11023,0,11063,2,
11016,0,11064,2,
10976,0,11065,2,
11018,11017,11066,0,
10994,0,11067,2,
11016,10360,11068,1,
11024,0,11069,2,
11027,10962,11070,0,
10892,11024,11071,1,
11028,0,11072,2,
10855,11029,11073,0,
11030,0,11074,2,
10856,11032,11075,0,
10860,11033,11076,0,
124,11034,11077,1,
10542,11035,11078,0,
10547,11037,11079,0,
11038,0,11080,2,
10865,11041,11081,0,
10866,11043,11082,0,
11045,0,11083,2,
10867,11047,11084,0,
11048,10713,11085,0,
11051,0,11086,2,
10873,11053,11087,0,
10876,11055,11088,0,
10835,11057,11089,0,
10625,11059,11090,0,
11025,0,11091,2,
11068,11066,11092,1,
11064,10360,11093,0,
10882,11063,11094,0,
11026,0,11095,2,
11065,9976,11096,0,
10337,11038,11097,0,
11066,0,11098,2,
11068,0,11099,2,
11067,10956,11100,0,
10951,11061,11101,0,
11062,0,11102,2,
11042,0,11103,2,
10892,11069,11104,0,
140,11087,11105,1,
11070,0,11106,2,
373,11072,11107,0,
11071,0,11108,2,
159,11073,11109,1,
384,11072,11110,0,
148,11075,11111,1,
369,11072,11112,0,
283,11072,11113,0,
10657,11076,11114,1,
11077,10611,11115,0,
11079,10659,11116,0,
10337,11080,11117,1,
157,11081,11118,1,
375,11072,11119,0,
158,11082,11120,1,
136,11084,11121,1,
912,11072,11122,0,
927,11072,11123,0,
11002,11086,11124,0,
380,11072,11125,0,
11088,10199,11126,1,
11088,10277,11127,0,
11089,0,11128,2,
11011,11089,11129,1,
11090,0,11130,2,
10311,11102,11131,0,
11091,11095,11132,0,
11093,0,11133,2,
11094,0,11134,2,
11094,11095,11135,0,
11100,0,11136,2,
11097,0,11137,2,
11099,11098,11138,0,
11096,0,11139,2,
11101,0,11140,2,
11104,0,11141,2,
11139,11137,11142,0,
10378,11133,11143,0,
11138,0,11144,2,
11106,10964,11145,0,
10532,11109,11146,1,
11107,0,11147,2,
10852,11108,11148,1,
10532,11109,11149,0,
10852,11108,11150,0,
11110,0,11151,2,
372,11108,11152,0,
11111,10608,11153,1,
386,11108,11154,0,
11112,0,11155,2,
367,11108,11156,0,
11111,10538,11157,0,
11113,0,11158,2,
11036,11114,11159,0,
267,11108,11160,0,
368,11108,11161,0,
11115,0,11162,2,
371,11108,11163,0,
11116,0,11164,2,
286,11108,11165,0,
11117,11042,11166,1,
10551,11118,11167,1,
10553,11120,11168,1,
10551,11118,11169,0,
11119,0,11170,2,
204,11108,11171,0,
10553,11120,11172,0,
655,11108,11173,0,
670,11108,11174,0,
284,11108,11175,0,
654,11108,11176,0,
406,11108,11177,0,
11121,0,11178,2,
285,11108,11179,0,
11122,0,11180,2,
10560,11121,11181,0,
658,11108,11182,0,
656,11108,11183,0,
11123,0,11184,2,
377,11108,11185,0,
1569,11108,11186,0,
11124,0,11187,2,
10519,11105,11188,1,
11105,10519,11189,0,
926,11108,11190,0,
661,11108,11191,0,
11125,0,11192,2,
1629,11108,11193,0,
11126,0,11194,2,
11127,0,11195,2,
265,11108,11196,0,
381,11108,11197,0,
382,11108,11198,0,
11058,11128,11199,0,
5278,11108,11200,1,
11108,5278,11201,0,
11130,10671,11202,0,
11135,0,11203,2,
11117,0,11204,2,
11131,0,11205,2,
11205,10441,11206,1,
11020,11141,11207,0,
11145,0,11208,2,
11147,10530,11209,0,
11145,11148,11210,1,
11146,11074,11211,0,
11150,0,11212,2,
11149,0,11213,2,
11151,10970,11214,0,
11152,0,11215,2,
11153,0,11216,2,
11155,10546,11217,0,
11154,0,11218,2,
11157,0,11219,2,
11158,10549,11220,0,
11156,0,11221,2,
11159,0,11222,2,
11161,0,11223,2,
11160,0,11224,2,
11165,0,11225,2,
10982,11164,11226,0,
11163,0,11227,2,
11166,0,11228,2,
11169,0,11229,2,
11170,10552,11230,0,
11171,0,11231,2,
11074,11146,11232,1,
11174,0,11233,2,
11173,0,11234,2,
11172,0,11235,2,
10441,11205,11236,0,
11175,0,11237,2,
11176,0,11238,2,
11177,0,11239,2,
10560,11178,11240,1,
11179,0,11241,2,
11181,0,11242,2,
11180,10562,11243,0,
11182,0,11244,2,
11183,0,11245,2,
11184,10565,11246,0,
11185,0,11247,2,
11188,11187,11248,0,
11186,0,11249,2,
11190,0,11250,2,
11189,0,11251,2,
11187,11188,11252,1,
11191,0,11253,2,
11192,10572,11254,0,
11193,0,11255,2,
11196,0,11256,2,
11197,0,11257,2,
11198,0,11258,2,
11199,0,11259,2,
11201,0,11260,2,
11202,0,11261,2,
11204,11103,11262,0,
11203,11140,11263,0,
10682,11143,11264,1,
11142,0,11265,2,
11143,0,11266,2,
11262,0,11267,2,
11206,11142,11268,1,
11207,0,11269,2,
11208,11148,11270,0,
11025,11207,11271,1,
11031,11209,11272,0,
11210,0,11273,2,
11211,0,11274,2,
11215,10974,11275,0,
11214,10861,11276,0,
10912,11216,11277,0,
11078,11216,11278,0,
11039,11217,11279,0,
11218,10978,11280,0,
11040,11220,11281,0,
11162,11222,11282,0,
11223,10983,11283,0,
11226,0,11284,2,
11046,11230,11285,0,
10989,11231,11286,0,
11236,0,11287,2,
11237,10991,11288,0,
11240,0,11289,2,
11050,11243,11290,0,
11244,10997,11291,0,
11054,11246,11292,0,
11248,0,11293,2,
11250,11004,11294,0,
11056,11254,11295,0,
11257,11008,11296,0,
11013,11259,11297,0,
7613,11261,11298,0,
10682,11266,11299,0,
11206,11265,11300,0,
11264,0,11301,2,
11132,11269,11302,0,
11270,0,11303,2,
11271,0,11304,2,
11213,11274,11305,0,
373,11273,11306,0,
159,11272,11307,1,
283,11273,11308,0,
368,11271,11309,0,
162,11276,11310,1,
11108,11271,11311,0,
369,11273,11312,0,
384,11273,11313,0,
11277,0,11314,2,
386,11271,11315,0,
372,11271,11316,0,
157,11279,11317,1,
11282,0,11318,2,
148,11281,11319,1,
11284,11168,11320,1,
267,11271,11321,0,
286,11271,11322,0,
11168,11284,11323,0,
371,11271,11324,0,
367,11271,11325,0,
375,11273,11326,0,
158,11285,11327,1,
655,11271,11328,0,
204,11271,11329,0,
11300,0,11330,2,
10559,11287,11331,0,
654,11271,11332,0,
670,11271,11333,0,
406,11271,11334,0,
284,11271,11335,0,
11085,11289,11336,0,
912,11273,11337,0,
285,11271,11338,0,
136,11290,11339,1,
656,11271,11340,0,
658,11271,11341,0,
140,11292,11342,1,
377,11271,11343,0,
927,11273,11344,0,
11251,11293,11345,0,
926,11271,11346,0,
1569,11271,11347,0,
661,11271,11348,0,
10491,11295,11349,1,
1629,11271,11350,0,
11295,10574,11351,0,
381,11271,11352,0,
380,11273,11353,0,
265,11271,11354,0,
382,11271,11355,0,
11200,11297,11356,1,
11297,0,11357,2,
11298,0,11358,2,
11271,6050,11359,0,
11228,11267,11360,0,
11299,0,11361,2,
11268,0,11362,2,
11091,11269,11363,0,
11263,11267,11364,0,
11302,0,11365,2,
10557,11327,11366,0,
11303,11212,11367,0,
11071,11304,11368,1,
11306,0,11369,2,
11307,10541,11370,1,
11305,0,11371,2,
10541,11307,11372,0,
11308,0,11373,2,
11278,11310,11374,0,
11309,0,11375,2,
11310,10542,11376,1,
11311,0,11377,2,
11312,0,11378,2,
11314,11219,11379,0,
10542,11310,11380,0,
11313,0,11381,2,
11315,0,11382,2,
11317,10706,11383,0,
11316,0,11384,2,
11317,10760,11385,1,
11319,10761,11386,1,
11319,10707,11387,0,
11321,0,11388,2,
11322,0,11389,2,
11324,0,11390,2,
11323,0,11391,2,
11327,10557,11392,1,
11325,0,11393,2,
11326,0,11394,2,
11329,0,11395,2,
11328,0,11396,2,
11331,0,11397,2,
10822,11331,11398,1,
11327,0,11399,2,
11332,0,11400,2,
11333,0,11401,2,
11335,0,11402,2,
11334,0,11403,2,
11337,0,11404,2,
10715,11339,11405,1,
11338,0,11406,2,
10715,11339,11407,0,
11340,0,11408,2,
11341,0,11409,2,
11342,0,11410,2,
11343,0,11411,2,
11344,0,11412,2,
11345,0,11413,2,
11346,0,11414,2,
10567,11342,11415,0,
11347,0,11416,2,
11348,0,11417,2,
11349,0,11418,2,
11350,0,11419,2,
11351,0,11420,2,
11353,0,11421,2,
11352,0,11422,2,
11354,0,11423,2,
11355,0,11424,2,
11200,11357,11425,0,
6050,11304,11426,1,
11356,0,11427,2,
11359,0,11428,2,
11358,7727,11429,0,
11360,0,11430,2,
11078,11310,11431,0,
11264,11361,11432,0,
11363,0,11433,2,
11144,11361,11434,0,
11365,11330,11435,0,
11368,11367,11436,1,
11370,10658,11437,1,
11369,10807,11438,0,
11370,10658,11439,0,
11367,0,11440,2,
10188,11372,11441,1,
11372,10188,11442,0,
11373,10813,11443,0,
11374,0,11444,2,
11375,11221,11445,0,
10660,11376,11446,0,
11376,0,11447,2,
11378,10814,11448,0,
11263,11365,11449,0,
11381,11224,11450,0,
10114,11380,11451,1,
11383,0,11452,2,
11384,11227,11453,0,
11382,11225,11454,0,
11386,0,11455,2,
11235,11391,11456,0,
11385,0,11457,2,
11392,10663,11458,1,
11392,10663,11459,0,
11394,10820,11460,0,
11366,10170,11461,1,
11239,11395,11462,0,
10870,11397,11463,0,
10993,11399,11464,0,
11366,10170,11465,0,
11387,0,11466,2,
11402,11241,11467,0,
11404,10826,11468,0,
11407,0,11469,2,
11409,11247,11470,0,
10567,11410,11471,1,
11412,10829,11472,0,
11415,0,11473,2,
11414,11253,11474,0,
11421,10834,11475,0,
11422,11256,11476,0,
11425,0,11477,2,
11426,0,11478,2,
11429,0,11479,2,
11433,11134,11480,0,
11398,11049,11481,0,
11365,11267,11482,0,
11362,11430,11483,0,
11431,0,11484,2,
11432,0,11485,2,
11435,11364,11486,0,
11436,0,11487,2,
11437,11371,11488,0,
11439,0,11489,2,
11275,11438,11490,0,
11368,11440,11491,0,
10864,11441,11492,1,
10864,11441,11493,0,
11026,11480,11494,1,
11442,0,11495,2,
11280,11443,11496,0,
11446,0,11497,2,
11379,11444,11498,0,
11283,11448,11499,0,
11449,0,11500,2,
10708,11447,11501,0,
11451,10904,11502,1,
11450,11044,11503,0,
11385,11452,11504,0,
11452,11229,11505,0,
11456,0,11506,2,
11459,0,11507,2,
11371,11437,11508,1,
11288,11460,11509,0,
11461,10868,11510,1,
11463,0,11511,2,
11464,0,11512,2,
11461,10868,11513,0,
11465,0,11514,2,
11291,11468,11515,0,
11471,10620,11516,1,
11294,11472,11517,0,
11471,0,11518,2,
10622,11473,11519,0,
11296,11475,11520,0,
11260,11477,11521,0,
7558,11479,11522,0,
10793,11485,11523,0,
11484,11019,11524,0,
11482,11263,11525,0,
11463,11049,11526,0,
11483,0,11527,2,
11486,0,11528,2,
369,11487,11529,0,
11488,0,11530,2,
159,11490,11531,1,
11491,0,11532,2,
11494,11304,11533,1,
373,11487,11534,0,
11493,0,11535,2,
283,11487,11536,0,
148,11496,11537,1,
11498,0,11538,2,
11494,11271,11539,0,
11318,11497,11540,0,
162,11503,11541,1,
11502,0,11542,2,
11501,0,11543,2,
11500,11228,11544,1,
11494,0,11545,2,
157,11499,11546,1,
384,11487,11547,0,
372,11494,11548,0,
386,11494,11549,0,
11504,0,11550,2,
368,11494,11551,0,
371,11494,11552,0,
267,11494,11553,0,
11153,11524,11554,1,
11458,11506,11555,0,
367,11494,11556,0,
158,11509,11557,1,
11506,11458,11558,1,
286,11494,11559,0,
204,11494,11560,0,
375,11487,11561,0,
11386,11498,11562,1,
655,11494,11563,0,
670,11494,11564,0,
11336,11512,11565,0,
11513,0,11566,2,
654,11494,11567,0,
284,11494,11568,0,
406,11494,11569,0,
285,11494,11570,0,
136,11515,11571,1,
912,11487,11572,0,
658,11494,11573,0,
656,11494,11574,0,
11516,0,11575,2,
927,11487,11576,0,
140,11517,11577,1,
10620,11518,11578,0,
11516,11345,11579,1,
377,11494,11580,0,
11519,0,11581,2,
926,11494,11582,0,
1569,11494,11583,0,
661,11494,11584,0,
11520,10719,11585,1,
380,11487,11586,0,
1629,11494,11587,0,
11520,10781,11588,0,
381,11494,11589,0,
265,11494,11590,0,
382,11494,11591,0,
11426,11521,11592,1,
11521,0,11593,2,
11522,0,11594,2,
11494,5737,11595,0,
11525,0,11596,2,
11166,11500,11597,0,
11527,11330,11598,0,
11526,0,11599,2,
11489,11530,11600,0,
11529,0,11601,2,
11531,11492,11602,1,
11532,11377,11603,0,
11533,0,11604,2,
11495,11535,11605,0,
11536,0,11606,2,
11531,11492,11607,0,
11534,0,11608,2,
11537,10923,11609,1,
11537,10923,11610,0,
11540,0,11611,2,
11539,0,11612,2,
11544,11545,11613,1,
11541,11542,11614,0,
11546,11083,11615,1,
11547,0,11616,2,
11548,0,11617,2,
11541,0,11618,2,
11544,0,11619,2,
11549,0,11620,2,
11546,11083,11621,0,
11551,0,11622,2,
11553,0,11623,2,
11552,0,11624,2,
11555,0,11625,2,
11554,0,11626,2,
11556,0,11627,2,
11455,11538,11628,0,
11559,0,11629,2,
11557,11510,11630,1,
11560,0,11631,2,
11561,0,11632,2,
11557,11510,11633,0,
11562,0,11634,2,
11564,0,11635,2,
11563,0,11636,2,
11565,0,11637,2,
11514,11566,11638,0,
11567,0,11639,2,
11568,0,11640,2,
11569,0,11641,2,
11570,0,11642,2,
11571,11052,11643,1,
11572,0,11644,2,
11571,10998,11645,0,
11573,0,11646,2,
11574,0,11647,2,
11576,0,11648,2,
11575,11413,11649,0,
11577,0,11650,2,
11578,0,11651,2,
11580,0,11652,2,
10874,11577,11653,0,
11582,0,11654,2,
11583,0,11655,2,
11584,0,11656,2,
11585,0,11657,2,
11586,0,11658,2,
11587,0,11659,2,
11588,0,11660,2,
11589,0,11661,2,
11590,0,11662,2,
11591,0,11663,2,
11478,11593,11664,0,
5737,11545,11665,1,
11594,7614,11666,0,
11597,0,11667,2,
11595,0,11668,2,
11483,11596,11669,0,
11598,0,11670,2,
11599,11136,11671,0,
11667,11267,11672,0,
11528,11670,11673,0,
11669,0,11674,2,
11601,10980,11675,0,
11600,0,11676,2,
11603,0,11677,2,
11605,0,11678,2,
11607,0,11679,2,
11608,10987,11680,0,
11606,10986,11681,0,
11609,11538,11682,0,
11387,11609,11683,0,
11610,0,11684,2,
11543,11611,11685,0,
11615,11550,11686,0,
11614,0,11687,2,
11616,11388,11688,0,
11618,11502,11689,0,
11620,11389,11690,0,
11619,11494,11691,0,
11617,11390,11692,0,
372,11619,11693,0,
11622,11393,11694,0,
368,11619,11695,0,
386,11619,11696,0,
11507,11625,11697,0,
267,11619,11698,0,
371,11619,11699,0,
11628,0,11700,2,
286,11619,11701,0,
11633,0,11702,2,
11632,10995,11703,0,
11602,11600,11704,1,
11621,0,11705,2,
367,11619,11706,0,
11240,11638,11707,1,
11242,11637,11708,0,
204,11619,11709,0,
670,11619,11710,0,
655,11619,11711,0,
284,11619,11712,0,
11640,11406,11713,0,
654,11619,11714,0,
406,11619,11715,0,
11643,0,11716,2,
11644,11003,11717,0,
11645,0,11718,2,
11646,11411,11719,0,
285,11619,11720,0,
656,11619,11721,0,
11648,11005,11722,0,
11649,0,11723,2,
658,11619,11724,0,
10874,11650,11725,1,
11653,0,11726,2,
377,11619,11727,0,
11654,11417,11728,0,
1569,11619,11729,0,
926,11619,11730,0,
661,11619,11731,0,
11658,11009,11732,0,
1629,11619,11733,0,
11661,11423,11734,0,
381,11619,11735,0,
265,11619,11736,0,
382,11619,11737,0,
11664,0,11738,2,
6575,11666,11739,0,
11665,0,11740,2,
5741,11619,11741,1,
5741,11619,11742,0,
11268,11672,11743,1,
11651,11723,11744,0,
11725,11519,11745,1,
11673,11481,11746,0,
11678,11167,11747,1,
11602,11676,11748,0,
11445,11675,11749,0,
11677,11604,11750,0,
11167,11678,11751,0,
11454,11681,11752,0,
11677,11604,11753,1,
11453,11680,11754,0,
11683,0,11755,2,
11682,11455,11756,0,
11685,0,11757,2,
11688,11286,11758,0,
11689,0,11759,2,
11691,0,11760,2,
11674,11330,11761,0,
11693,0,11762,2,
11695,0,11763,2,
11697,0,11764,2,
11696,0,11765,2,
11630,11697,11766,1,
11698,0,11767,2,
11699,0,11768,2,
11700,11466,11769,0,
11701,0,11770,2,
11467,11703,11771,0,
11704,0,11772,2,
11706,0,11773,2,
11708,0,11774,2,
11709,0,11775,2,
11711,0,11776,2,
11710,0,11777,2,
11712,0,11778,2,
11714,0,11779,2,
11715,0,11780,2,
11470,11717,11781,0,
11720,0,11782,2,
11721,0,11783,2,
11474,11722,11784,0,
11724,0,11785,2,
11725,0,11786,2,
10943,11726,11787,0,
11727,0,11788,2,
11729,0,11789,2,
11730,0,11790,2,
11731,0,11791,2,
11476,11732,11792,0,
11733,0,11793,2,
11735,0,11794,2,
11736,0,11795,2,
11737,0,11796,2,
11428,11738,11797,0,
11742,0,11798,2,
11746,0,11799,2,
159,11754,11800,1,
11748,0,11801,2,
157,11749,11802,1,
11750,0,11803,2,
148,11752,11804,1,
373,11753,11805,0,
283,11753,11806,0,
11751,0,11807,2,
11756,0,11808,2,
11684,11755,11809,0,
369,11753,11810,0,
11687,11757,11811,0,
384,11753,11812,0,
162,11758,11813,1,
11762,11624,11814,0,
11761,0,11815,2,
11743,11619,11816,1,
11743,11619,11817,0,
11763,11627,11818,0,
11761,11398,11819,1,
386,11743,11820,0,
372,11743,11821,0,
11630,11764,11822,0,
11765,11629,11823,0,
11403,11767,11824,0,
11766,0,11825,2,
11609,11769,11826,1,
368,11743,11827,0,
158,11771,11828,1,
375,11753,11829,0,
267,11743,11830,0,
371,11743,11831,0,
286,11743,11832,0,
11405,11774,11833,0,
367,11743,11834,0,
204,11743,11835,0,
11778,11642,11836,0,
11774,11405,11837,1,
655,11743,11838,0,
654,11743,11839,0,
912,11753,11840,0,
670,11743,11841,0,
406,11743,11842,0,
284,11743,11843,0,
136,11781,11844,1,
285,11743,11845,0,
140,11784,11846,1,
11744,0,11847,2,
11785,11652,11848,0,
11786,11581,11849,0,
927,11753,11850,0,
656,11743,11851,0,
11744,11745,11852,1,
658,11743,11853,0,
377,11743,11854,0,
11787,0,11855,2,
11790,11656,11856,0,
1569,11743,11857,0,
926,11743,11858,0,
10946,11792,11859,1,
380,11753,11860,0,
661,11743,11861,0,
1629,11743,11862,0,
11792,11012,11863,0,
11794,11662,11864,0,
381,11743,11865,0,
265,11743,11866,0,
11665,11797,11867,1,
11797,0,11868,2,
382,11743,11869,0,
6056,11743,11870,0,
11743,0,11871,2,
6059,11798,11872,0,
11671,11799,11873,0,
11809,11808,11874,0,
11679,11801,11875,0,
11802,0,11876,2,
11747,11800,11877,1,
11803,11612,11878,0,
11747,11800,11879,0,
11806,0,11880,2,
11229,11807,11881,0,
11804,0,11882,2,
11505,11807,11883,0,
11805,0,11884,2,
11320,11802,11885,0,
11811,0,11886,2,
11810,0,11887,2,
11554,11813,11888,0,
11812,0,11889,2,
11232,11804,11890,0,
11813,0,11891,2,
11815,11398,11892,0,
11817,0,11893,2,
11819,0,11894,2,
11821,0,11895,2,
11820,0,11896,2,
11822,0,11897,2,
11827,0,11898,2,
11826,0,11899,2,
11707,11828,11900,1,
11829,0,11901,2,
11707,11828,11902,0,
11830,0,11903,2,
11832,0,11904,2,
11831,0,11905,2,
11833,0,11906,2,
11834,0,11907,2,
11835,0,11908,2,
11838,0,11909,2,
11839,0,11910,2,
11840,0,11911,2,
11841,0,11912,2,
11252,11844,11913,1,
11843,0,11914,2,
11842,0,11915,2,
11252,11844,11916,0,
11845,0,11917,2,
11846,0,11918,2,
11745,11847,11919,0,
11851,0,11920,2,
11850,0,11921,2,
11849,0,11922,2,
11852,0,11923,2,
11194,11846,11924,0,
11853,0,11925,2,
11854,0,11926,2,
11857,0,11927,2,
11858,0,11928,2,
11859,0,11929,2,
11860,0,11930,2,
11861,0,11931,2,
11862,0,11932,2,
11863,0,11933,2,
11865,0,11934,2,
11866,0,11935,2,
11740,11868,11936,0,
11869,0,11937,2,
11870,0,11938,2,
6056,11871,11939,1,
11872,0,11940,2,
11939,11872,11941,1,
11873,0,11942,2,
11232,11882,11943,1,
11875,0,11944,2,
11320,11876,11945,1,
11613,11878,11946,1,
11878,0,11947,2,
11880,11233,11948,0,
11884,11234,11949,0,
11883,0,11950,2,
11881,0,11951,2,
11879,0,11952,2,
11885,0,11953,2,
11874,0,11954,2,
11759,11886,11955,0,
11887,11238,11956,0,
11889,11623,11957,0,
11888,0,11958,2,
11890,0,11959,2,
11626,11891,11960,0,
11892,0,11961,2,
11743,11894,11962,1,
11873,11092,11963,1,
11896,11770,11964,0,
11895,11768,11965,0,
11702,11897,11966,0,
11743,11894,11967,0,
11898,11773,11968,0,
386,11894,11969,0,
372,11894,11970,0,
11641,11903,11971,0,
11902,0,11972,2,
11901,11245,11973,0,
368,11894,11974,0,
371,11894,11975,0,
267,11894,11976,0,
11469,11906,11977,0,
367,11894,11978,0,
286,11894,11979,0,
204,11894,11980,0,
11911,11249,11981,0,
670,11894,11982,0,
284,11894,11983,0,
11914,11782,11984,0,
11916,0,11985,2,
654,11894,11986,0,
406,11894,11987,0,
285,11894,11988,0,
11919,0,11989,2,
11126,11918,11990,1,
655,11894,11991,0,
11921,11255,11992,0,
658,11894,11993,0,
11925,11788,11994,0,
11924,0,11995,2,
656,11894,11996,0,
377,11894,11997,0,
1569,11894,11998,0,
11928,11791,11999,0,
926,11894,12000,0,
11930,11258,12001,0,
661,11894,12002,0,
1629,11894,12003,0,
11934,11795,12004,0,
381,11894,12005,0,
11936,0,12006,2,
265,11894,12007,0,
5742,11894,12008,0,
5742,11894,12009,1,
6317,11938,12010,0,
382,11894,12011,0,
11939,0,12012,2,
11942,11092,12013,0,
11944,11877,12014,0,
11945,0,12015,2,
11613,11947,12016,0,
11946,0,12017,2,
11457,11951,12018,0,
11943,0,12019,2,
11690,11948,12020,0,
11692,11949,12021,0,
11951,11457,12022,1,
11955,0,12023,2,
11694,11956,12024,0,
11957,11462,12025,0,
11960,0,12026,2,
11961,11511,12027,0,
11686,11950,12028,0,
11963,0,12029,2,
11967,0,12030,2,
11966,0,12031,2,
11944,11877,12032,1,
11969,0,12033,2,
11970,0,12034,2,
11713,11973,12035,0,
11974,0,12036,2,
11943,11874,12037,1,
11643,11977,12038,1,
11977,0,12039,2,
11976,0,12040,2,
11975,0,12041,2,
11978,0,12042,2,
11979,0,12043,2,
11980,0,12044,2,
11719,11981,12045,0,
11983,0,12046,2,
11982,0,12047,2,
11986,0,12048,2,
11987,0,12049,2,
11988,0,12050,2,
11922,11989,12051,0,
11990,11787,12052,1,
11728,11992,12053,0,
11991,0,12054,2,
11993,0,12055,2,
11990,11855,12056,0,
11195,11995,12057,0,
11996,0,12058,2,
11997,0,12059,2,
11998,0,12060,2,
12000,0,12061,2,
11734,12001,12062,0,
12002,0,12063,2,
12003,0,12064,2,
12005,0,12065,2,
12007,0,12066,2,
11668,12006,12067,0,
12009,12010,12068,1,
12008,0,12069,2,
12010,0,12070,2,
12011,0,12071,2,
12012,11940,12072,0,
12013,0,12073,2,
11686,12015,12074,0,
11621,12015,12075,0,
12014,0,12076,2,
373,12017,12077,0,
12016,0,12078,2,
159,12021,12079,1,
148,12020,12080,1,
11954,12019,12081,0,
12018,0,12082,2,
369,12017,12083,0,
283,12017,12084,0,
12023,11958,12085,0,
157,12024,12086,1,
384,12017,12087,0,
162,12025,12088,1,
11049,12027,12089,1,
12028,0,12090,2,
12031,11900,12091,0,
375,12017,12092,0,
12033,11904,12093,0,
12031,11900,12094,1,
12034,11905,12095,0,
158,12035,12096,1,
12036,11907,12097,0,
11716,12039,12098,0,
12037,0,12099,2,
12038,0,12100,2,
11780,12040,12101,0,
371,12029,12102,0,
386,12029,12103,0,
136,12045,12104,1,
12046,11917,12105,0,
368,12029,12106,0,
912,12017,12107,0,
267,12029,12108,0,
367,12029,12109,0,
286,12029,12110,0,
655,12029,12111,0,
670,12029,12112,0,
204,12029,12113,0,
406,12029,12114,0,
372,12029,12115,0,
654,12029,12116,0,
12051,0,12117,2,
12052,0,12118,2,
927,12017,12119,0,
140,12053,12120,1,
284,12029,12121,0,
12056,0,12122,2,
12055,11926,12123,0,
12052,12051,12124,1,
285,12029,12125,0,
12057,0,12126,2,
656,12029,12127,0,
658,12029,12128,0,
377,12029,12129,0,
12061,11931,12130,0,
380,12017,12131,0,
11129,12062,12132,1,
1569,12029,12133,0,
12062,11129,12134,0,
926,12029,12135,0,
661,12029,12136,0,
12065,11935,12137,0,
1629,12029,12138,0,
265,12029,12139,0,
11741,12067,12140,1,
12067,0,12141,2,
6058,12069,12142,0,
12068,0,12143,2,
381,12029,12144,0,
12009,12070,12145,0,
382,12029,12146,0,
5490,12029,12147,1,
12072,0,12148,2,
5288,12029,12149,0,
11434,12073,12150,0,
12075,0,12151,2,
12074,11950,12152,0,
11952,12076,12153,0,
11760,12078,12154,0,
12022,12079,12155,1,
12077,0,12156,2,
12080,0,12157,2,
12082,11452,12158,0,
12022,12079,12159,0,
12081,0,12160,2,
11558,12086,12161,1,
12083,0,12162,2,
11558,12086,12163,0,
12085,0,12164,2,
12084,0,12165,2,
12087,0,12166,2,
11508,12080,12167,0,
11562,12088,12168,0,
12088,0,12169,2,
12089,0,12170,2,
12090,11705,12171,0,
12089,12029,12172,1,
11144,12073,12173,0,
12091,0,12174,2,
12092,0,12175,2,
11837,12096,12176,1,
11837,12096,12177,0,
12098,0,12178,2,
12102,0,12179,2,
12103,0,12180,2,
12104,0,12181,2,
12106,0,12182,2,
12109,0,12183,2,
12107,0,12184,2,
12108,0,12185,2,
12110,0,12186,2,
12111,0,12187,2,
11579,12104,12188,0,
12112,0,12189,2,
12114,0,12190,2,
12113,0,12191,2,
12116,0,12192,2,
12115,0,12193,2,
12118,12117,12194,0,
12120,11418,12195,1,
12119,0,12196,2,
12121,0,12197,2,
12120,11418,12198,0,
12125,0,12199,2,
12127,0,12200,2,
12128,0,12201,2,
12129,0,12202,2,
12131,0,12203,2,
12132,0,12204,2,
12133,0,12205,2,
12134,0,12206,2,
12135,0,12207,2,
12136,0,12208,2,
12138,0,12209,2,
12139,0,12210,2,
12140,0,12211,2,
11741,12141,12212,0,
12144,0,12213,2,
12146,0,12214,2,
12145,0,12215,2,
12142,0,12216,2,
12147,0,12217,2,
12149,0,12218,2,
12150,0,12219,2,
12153,0,12220,2,
11953,12151,12221,0,
12152,0,12222,2,
12156,11396,12223,0,
12154,0,12224,2,
12159,0,12225,2,
11816,12154,12226,1,
11615,12158,12227,1,
11508,12157,12228,1,
11959,12160,12229,0,
12162,11400,12230,0,
12165,11401,12231,0,
12163,0,12232,2,
12026,12164,12233,0,
12167,0,12234,2,
12168,0,12235,2,
12166,11631,12236,0,
12169,11634,12237,0,
11819,12170,12238,1,
11945,12171,12239,1,
12172,0,12240,2,
12173,0,12241,2,
11894,12170,12242,0,
12170,12029,12243,0,
11972,12174,12244,0,
12175,11408,12245,0,
372,12170,12246,0,
368,12170,12247,0,
12177,0,12248,2,
386,12170,12249,0,
11718,12178,12250,0,
655,12170,12251,0,
267,12170,12252,0,
286,12170,12253,0,
367,12170,12254,0,
654,12170,12255,0,
11579,12181,12256,1,
204,12170,12257,0,
670,12170,12258,0,
12184,11416,12259,0,
12049,12185,12260,0,
284,12170,12261,0,
12188,0,12262,2,
406,12170,12263,0,
371,12170,12264,0,
285,12170,12265,0,
12194,0,12266,2,
12195,12057,12267,1,
12196,11419,12268,0,
656,12170,12269,0,
658,12170,12270,0,
12195,12126,12271,0,
12198,0,12272,2,
377,12170,12273,0,
1569,12170,12274,0,
926,12170,12275,0,
12203,11424,12276,0,
661,12170,12277,0,
1629,12170,12278,0,
381,12170,12279,0,
382,12170,12280,0,
5744,12170,12281,1,
265,12170,12282,0,
12212,0,12283,2,
5744,12170,12284,0,
11523,12219,12285,0,
12220,12155,12286,0,
12221,12222,12287,0,
11816,12224,12288,0,
12223,11814,12289,0,
12229,0,12290,2,
12227,0,12291,2,
12226,0,12292,2,
12228,0,12293,2,
11818,12230,12294,0,
12233,0,12295,2,
11823,12231,12296,0,
12236,11824,12297,0,
12237,0,12298,2,
12238,0,12299,2,
12241,11301,12300,1,
12242,0,12301,2,
12243,0,12302,2,
12244,0,12303,2,
11836,12245,12304,0,
12246,0,12305,2,
12247,0,12306,2,
12220,12155,12307,1,
12249,0,12308,2,
12228,12229,12309,1,
12251,0,12310,2,
12252,0,12311,2,
12250,0,12312,2,
12253,0,12313,2,
12254,0,12314,2,
12256,0,12315,2,
12255,0,12316,2,
12257,0,12317,2,
12258,0,12318,2,
11848,12259,12319,0,
12261,0,12320,2,
12263,0,12321,2,
12264,0,12322,2,
12265,0,12323,2,
12122,12266,12324,0,
11856,12268,12325,0,
12269,0,12326,2,
12267,0,12327,2,
12271,0,12328,2,
11420,12272,12329,0,
12270,0,12330,2,
12273,0,12331,2,
12274,0,12332,2,
12275,0,12333,2,
11864,12276,12334,0,
12277,0,12335,2,
12278,0,12336,2,
12279,0,12337,2,
12280,0,12338,2,
12281,12142,12339,1,
12282,0,12340,2,
12281,12216,12341,0,
12284,0,12342,2,
11301,12241,12343,0,
12285,0,12344,2,
12287,0,12345,2,
12286,0,12346,2,
159,12289,12347,1,
12288,0,12348,2,
12290,12293,12349,0,
283,12292,12350,0,
373,12292,12351,0,
157,12294,12352,1,
369,12292,12353,0,
12235,12295,12354,0,
148,12296,12355,1,
162,12297,12356,1,
384,12292,12357,0,
12299,12240,12358,0,
12300,0,12359,2,
12301,12302,12360,0,
12303,12176,12361,0,
12305,12041,12362,0,
158,12304,12363,1,
12306,12042,12364,0,
12303,12176,12365,1,
12029,12300,12366,0,
375,12292,12367,0,
372,12300,12368,0,
12308,12043,12369,0,
12312,11913,12370,0,
12309,0,12371,2,
11915,12311,12372,0,
12180,12313,12373,0,
12312,11913,12374,1,
368,12300,12375,0,
386,12300,12376,0,
12182,12314,12377,0,
371,12300,12378,0,
286,12300,12379,0,
670,12300,12380,0,
655,12300,12381,0,
136,12319,12382,1,
204,12300,12383,0,
267,12300,12384,0,
12320,12050,12385,0,
912,12292,12386,0,
367,12300,12387,0,
12193,12322,12388,0,
406,12300,12389,0,
284,12300,12390,0,
12324,0,12391,2,
12197,12323,12392,0,
12267,12324,12393,1,
140,12325,12394,1,
654,12300,12395,0,
12330,12059,12396,0,
927,12292,12397,0,
285,12300,12398,0,
12329,0,12399,2,
656,12300,12400,0,
12201,12331,12401,0,
658,12300,12402,0,
377,12300,12403,0,
12333,12063,12404,0,
11356,12334,12405,1,
380,12292,12406,0,
1569,12300,12407,0,
12207,12335,12408,0,
12334,11427,12409,0,
926,12300,12410,0,
661,12300,12411,0,
381,12300,12412,0,
12337,12066,12413,0,
265,12300,12414,0,
12339,123,12415,1,
12213,12340,12416,0,
12339,0,12417,2,
12341,0,12418,2,
5755,12300,12419,0,
382,12300,12420,0,
1629,12300,12421,0,
12343,0,12422,2,
10881,12344,12423,0,
12345,12161,12424,0,
12225,12346,12425,0,
12347,12291,12426,1,
11893,12348,12427,0,
12349,0,12428,2,
12350,0,12429,2,
12347,12291,12430,0,
12351,0,12431,2,
12352,11825,12432,1,
12355,11772,12433,1,
12354,0,12434,2,
12352,11825,12435,0,
12353,0,12436,2,
12355,11772,12437,0,
12356,11899,12438,0,
12357,0,12439,2,
12356,0,12440,2,
12345,12161,12441,1,
11963,12359,12442,1,
12361,0,12443,2,
12363,12100,12444,1,
12366,0,12445,2,
12367,0,12446,2,
12363,12038,12447,0,
12368,0,12448,2,
12370,0,12449,2,
12375,0,12450,2,
12376,0,12451,2,
12378,0,12452,2,
12379,0,12453,2,
12383,0,12454,2,
12384,0,12455,2,
12381,0,12456,2,
12382,11923,12457,1,
12380,0,12458,2,
12386,0,12459,2,
12382,11923,12460,0,
12387,0,12461,2,
12389,0,12462,2,
12390,0,12463,2,
12327,12391,12464,0,
12394,11657,12465,1,
12395,0,12466,2,
12398,0,12467,2,
12397,0,12468,2,
12394,11657,12469,0,
12400,0,12470,2,
12402,0,12471,2,
12403,0,12472,2,
12405,0,12473,2,
12406,0,12474,2,
12407,0,12475,2,
12409,0,12476,2,
12410,0,12477,2,
12411,0,12478,2,
12412,0,12479,2,
12414,0,12480,2,
12415,124,12481,1,
12417,148,12482,0,
12415,162,12483,0,
12342,12418,12484,0,
5755,12359,12485,1,
12419,0,12486,2,
12420,0,12487,2,
12421,0,12488,2,
12422,11361,12489,0,
12423,0,12490,2,
12423,10628,12491,1,
12425,0,12492,2,
12424,0,12493,2,
12427,0,12494,2,
12431,11636,12495,0,
12429,11635,12496,0,
11962,12427,12497,1,
12430,0,12498,2,
12234,12428,12499,0,
12298,12434,12500,0,
12436,11639,12501,0,
12435,0,12502,2,
12438,0,12503,2,
12439,11775,12504,0,
12437,0,12505,2,
12440,11826,12506,0,
12248,12443,12507,0,
12444,0,12508,2,
12426,12425,12509,1,
12447,0,12510,2,
12448,12179,12511,0,
12446,11647,12512,0,
11985,12449,12513,0,
12450,12183,12514,0,
12451,12186,12515,0,
12321,12455,12516,0,
12459,11655,12517,0,
12460,0,12518,2,
12463,12199,12519,0,
12464,0,12520,2,
12465,12329,12521,1,
12468,11659,12522,0,
12465,12399,12523,0,
12469,0,12524,2,
12471,12202,12525,0,
12474,11663,12526,0,
12477,12208,12527,0,
12479,12210,12528,0,
12481,0,12529,2,
12483,0,12530,2,
12482,0,12531,2,
12147,12484,12532,1,
12484,0,12533,2,
6073,12486,12534,0,
12485,0,12535,2,
10793,12489,12536,1,
10628,12490,12537,0,
12491,0,12538,2,
12426,12492,12539,0,
12232,12493,12540,0,
11962,12494,12541,0,
12495,11965,12542,0,
11964,12496,12543,0,
12497,0,12544,2,
12499,0,12545,2,
12500,0,12546,2,
11968,12501,12547,0,
12504,11971,12548,0,
12506,0,12549,2,
12444,12507,12550,1,
12507,0,12551,2,
12536,0,12552,2,
11984,12512,12553,0,
12433,12499,12554,1,
12509,0,12555,2,
12513,0,12556,2,
12256,12513,12557,1,
11994,12517,12558,0,
12328,12520,12559,0,
11999,12522,12560,0,
12521,0,12561,2,
12524,11660,12562,0,
12523,0,12563,2,
12004,12526,12564,0,
12530,12531,12565,0,
12217,12533,12566,0,
12534,0,12567,2,
12537,0,12568,2,
12540,0,12569,2,
12539,0,12570,2,
12541,0,12571,2,
148,12543,12572,1,
283,12544,12573,0,
12433,12545,12574,0,
373,12544,12575,0,
159,12542,12576,1,
157,12547,12577,1,
369,12544,12578,0,
12503,12546,12579,0,
162,12548,12580,1,
384,12544,12581,0,
12432,12540,12582,1,
375,12544,12583,0,
12508,12551,12584,0,
12550,0,12585,2,
12300,12552,12586,1,
12300,12552,12587,0,
158,12553,12588,1,
12554,0,12589,2,
372,12552,12590,0,
12491,12552,12591,1,
12315,12556,12592,0,
386,12552,12593,0,
371,12538,12594,0,
655,12552,12595,0,
386,12538,12596,0,
372,12538,12597,0,
267,12552,12598,0,
371,12552,12599,0,
286,12552,12600,0,
368,12552,12601,0,
912,12544,12602,0,
286,12538,12603,0,
670,12552,12604,0,
670,12538,12605,0,
136,12558,12606,1,
204,12552,12607,0,
267,12538,12608,0,
655,12538,12609,0,
367,12552,12610,0,
368,12538,12611,0,
367,12538,12612,0,
654,12552,12613,0,
204,12538,12614,0,
406,12552,12615,0,
284,12552,12616,0,
12521,12559,12617,1,
406,12538,12618,0,
12559,0,12619,2,
654,12538,12620,0,
140,12560,12621,1,
284,12538,12622,0,
285,12552,12623,0,
927,12544,12624,0,
12562,0,12625,2,
285,12538,12626,0,
656,12552,12627,0,
658,12552,12628,0,
656,12538,12629,0,
658,12538,12630,0,
377,12552,12631,0,
11592,12564,12632,1,
380,12544,12633,0,
1569,12552,12634,0,
377,12538,12635,0,
12564,11592,12636,0,
12538,12552,12637,0,
926,12552,12638,0,
381,12552,12639,0,
661,12538,12640,0,
1629,12552,12641,0,
1629,12538,12642,0,
12532,12565,12643,1,
12565,0,12644,2,
12566,0,12645,2,
382,12552,12646,0,
6321,12552,12647,0,
265,12538,12648,0,
6323,12538,12649,1,
382,12538,12650,0,
6068,12538,12651,0,
5748,12552,12652,1,
265,12552,12653,0,
381,12538,12654,0,
1569,12538,12655,0,
926,12538,12656,0,
661,12552,12657,0,
10723,12568,12658,0,
12591,0,12659,2,
12498,12570,12660,0,
12432,12569,12661,0,
12030,12571,12662,0,
12239,12576,12663,1,
12239,12576,12664,0,
12572,0,12665,2,
12573,0,12666,2,
12575,0,12667,2,
12574,0,12668,2,
12094,12577,12669,1,
12579,0,12670,2,
12578,0,12671,2,
12094,12577,12672,0,
12032,12572,12673,0,
12581,0,12674,2,
12037,12580,12675,0,
12580,0,12676,2,
12582,0,12677,2,
12584,0,12678,2,
12583,0,12679,2,
12442,12586,12680,0,
12637,0,12681,2,
12374,12588,12682,1,
12587,0,12683,2,
12374,12588,12684,0,
12590,0,12685,2,
12592,0,12686,2,
12593,0,12687,2,
12595,0,12688,2,
12598,0,12689,2,
12596,0,12690,2,
12600,0,12691,2,
12594,0,12692,2,
12597,0,12693,2,
12599,0,12694,2,
12601,0,12695,2,
12602,0,12696,2,
12606,12124,12697,1,
12603,0,12698,2,
12604,0,12699,2,
12608,0,12700,2,
12607,0,12701,2,
12606,12124,12702,0,
12605,0,12703,2,
12609,0,12704,2,
12611,0,12705,2,
12610,0,12706,2,
12612,0,12707,2,
12613,0,12708,2,
12615,0,12709,2,
12614,0,12710,2,
12616,0,12711,2,
12617,0,12712,2,
12618,0,12713,2,
12561,12619,12714,0,
12620,0,12715,2,
12623,0,12716,2,
12622,0,12717,2,
12621,11929,12718,1,
12624,0,12719,2,
12621,11929,12720,0,
12626,0,12721,2,
12627,0,12722,2,
12628,0,12723,2,
12629,0,12724,2,
12631,0,12725,2,
12630,0,12726,2,
12632,0,12727,2,
12633,0,12728,2,
12635,0,12729,2,
12634,0,12730,2,
12636,0,12731,2,
12638,0,12732,2,
12639,0,12733,2,
12640,0,12734,2,
12641,0,12735,2,
12642,0,12736,2,
12643,0,12737,2,
12532,12644,12738,0,
12648,0,12739,2,
12647,0,12740,2,
12218,12645,12741,0,
12646,0,12742,2,
12649,0,12743,2,
12650,0,12744,2,
12652,12534,12745,1,
12651,0,12746,2,
12654,0,12747,2,
12653,0,12748,2,
12655,0,12749,2,
12652,0,12750,2,
12657,0,12751,2,
12656,0,12752,2,
12658,0,12753,2,
12660,0,12754,2,
12661,0,12755,2,
12662,0,12756,2,
12505,12668,12757,0,
12032,12665,12758,1,
12666,11777,12759,0,
12238,12662,12760,1,
12664,0,12761,2,
12667,11776,12762,0,
12549,12670,12763,0,
12672,0,12764,2,
12671,11779,12765,0,
12673,0,12766,2,
12675,0,12767,2,
12674,11908,12768,0,
12676,12099,12769,0,
12679,11783,12770,0,
12510,12678,12771,0,
12445,12683,12772,0,
12684,0,12773,2,
12685,12452,12774,0,
12262,12686,12775,0,
12687,12453,12776,0,
12693,12694,12777,0,
12690,12691,12778,0,
12190,12689,12779,0,
12695,12461,12780,0,
12696,11789,12781,0,
12462,12700,12782,0,
12702,0,12783,2,
12705,12706,12784,0,
12711,12467,12785,0,
12714,0,12786,2,
12718,12562,12787,1,
12717,12716,12788,0,
12719,11793,12789,0,
12718,12625,12790,0,
12720,0,12791,2,
12723,12472,12792,0,
12726,12725,12793,0,
12728,11796,12794,0,
12732,12478,12795,0,
12733,12480,12796,0,
12738,0,12797,2,
12485,12741,12798,1,
6070,12740,12799,0,
12741,0,12800,2,
12745,117,12801,1,
12747,12748,12802,0,
12745,159,12803,0,
12750,12567,12804,0,
12752,12751,12805,0,
12753,10693,12806,1,
12753,10693,12807,0,
12502,12755,12808,0,
12663,12754,12809,0,
12358,12756,12810,0,
12757,0,12811,2,
12758,0,12812,2,
12762,12095,12813,0,
373,12760,12814,0,
12093,12759,12815,0,
12299,12756,12816,0,
369,12760,12817,0,
12763,0,12818,2,
12097,12765,12819,0,
283,12760,12820,0,
12768,12101,12821,0,
384,12760,12822,0,
12769,0,12823,2,
12771,0,12824,2,
12105,12770,12825,0,
12754,12663,12826,1,
375,12760,12827,0,
12757,12758,12828,1,
12775,0,12829,2,
12775,12457,12830,1,
12123,12781,12831,0,
912,12760,12832,0,
12563,12786,12833,0,
12787,0,12834,2,
927,12760,12835,0,
12130,12789,12836,0,
12790,0,12837,2,
11933,12791,12838,0,
12137,12794,12839,0,
380,12760,12840,0,
12799,0,12841,2,
12535,12800,12842,0,
12804,0,12843,2,
12801,0,12844,2,
12803,0,12845,2,
12649,12799,12846,1,
12538,12806,12847,0,
12807,0,12848,2,
12808,0,12849,2,
12809,0,12850,2,
12810,0,12851,2,
12814,0,12852,2,
148,12815,12853,1,
159,12813,12854,1,
12812,12811,12855,0,
12816,0,12856,2,
12817,0,12857,2,
12767,12818,12858,0,
157,12819,12859,1,
12820,0,12860,2,
162,12821,12861,1,
12822,0,12862,2,
12806,0,12863,2,
12682,12824,12864,0,
158,12825,12865,1,
12824,12682,12866,1,
372,12806,12867,0,
12827,0,12868,2,
12829,12457,12869,0,
12828,0,12870,2,
670,12806,12871,0,
12830,0,12872,2,
386,12806,12873,0,
286,12806,12874,0,
371,12806,12875,0,
136,12831,12876,1,
12832,0,12877,2,
368,12806,12878,0,
267,12806,12879,0,
204,12806,12880,0,
655,12806,12881,0,
367,12806,12882,0,
406,12806,12883,0,
12787,12833,12884,1,
654,12806,12885,0,
12833,0,12886,2,
284,12806,12887,0,
12835,0,12888,2,
140,12836,12889,1,
12838,0,12890,2,
285,12806,12891,0,
656,12806,12892,0,
658,12806,12893,0,
11867,12839,12894,1,
12839,11867,12895,0,
12840,0,12896,2,
926,12806,12897,0,
661,12806,12898,0,
381,12806,12899,0,
1629,12806,12900,0,
265,12806,12901,0,
12743,12841,12902,0,
377,12806,12903,0,
6326,12806,12904,0,
12842,0,12905,2,
382,12806,12906,0,
12843,12845,12907,0,
1569,12806,12908,0,
12847,0,12909,2,
12669,12849,12910,0,
12761,12850,12911,0,
12360,12851,12912,0,
12441,12854,12913,1,
12853,0,12914,2,
12852,11909,12915,0,
12855,0,12916,2,
12441,12854,12917,0,
12365,12859,12918,1,
12857,11910,12919,0,
12856,12301,12920,0,
12365,12859,12921,0,
12858,0,12922,2,
12307,12853,12923,0,
12860,11912,12924,0,
12309,12861,12925,0,
12861,0,12926,2,
12862,12044,12927,0,
12491,12863,12928,1,
12864,0,12929,2,
12865,0,12930,2,
12868,11920,12931,0,
12557,12865,12932,0,
12867,0,12933,2,
12869,0,12934,2,
12871,0,12935,2,
12873,0,12936,2,
12849,12669,12937,1,
12874,0,12938,2,
12875,0,12939,2,
12876,0,12940,2,
12878,0,12941,2,
12877,11927,12942,0,
12393,12876,12943,0,
12879,0,12944,2,
12880,0,12945,2,
12881,0,12946,2,
12882,0,12947,2,
12883,0,12948,2,
12885,0,12949,2,
12834,12886,12950,0,
12887,0,12951,2,
12889,12204,12952,1,
12888,11932,12953,0,
12889,12132,12954,0,
12891,0,12955,2,
12892,0,12956,2,
12893,0,12957,2,
12896,11937,12958,0,
12895,0,12959,2,
12897,0,12960,2,
12898,0,12961,2,
12899,0,12962,2,
12900,0,12963,2,
12901,0,12964,2,
12902,0,12965,2,
6326,12863,12966,1,
12903,0,12967,2,
12904,0,12968,2,
12906,0,12969,2,
12846,12907,12970,1,
12907,0,12971,2,
12908,0,12972,2,
10694,12848,12973,0,
12909,12681,12974,0,
12910,0,12975,2,
12911,0,12976,2,
12442,12912,12977,1,
12915,12362,12978,0,
12917,0,12979,2,
12912,0,12980,2,
12307,12914,12981,1,
12766,12916,12982,0,
12172,12920,12983,1,
12364,12919,12984,0,
12823,12922,12985,0,
12921,0,12986,2,
12923,0,12987,2,
12369,12924,12988,0,
12925,0,12989,2,
12926,12371,12990,0,
12927,12372,12991,0,
12557,12930,12992,1,
12773,12929,12993,0,
12385,12931,12994,0,
12933,12692,12995,0,
12932,0,12996,2,
12518,12934,12997,0,
12936,12698,12998,0,
12393,12940,12999,1,
12941,12707,13000,0,
12396,12942,13001,0,
12709,12944,13002,0,
12943,0,13003,2,
12950,0,13004,2,
12952,0,13005,2,
12404,12953,13006,0,
12952,12838,13007,1,
12951,12721,13008,0,
12954,0,13009,2,
12957,12729,13010,0,
12659,12928,13011,0,
12413,12958,13012,0,
12960,12734,13013,0,
12962,12739,13014,0,
12746,12965,13015,0,
12966,0,13016,2,
6853,12968,13017,0,
12970,0,13018,2,
12846,12971,13019,0,
12973,0,13020,2,
12974,0,13021,2,
12913,12976,13022,0,
12764,12975,13023,0,
12977,0,13024,2,
12442,12980,13025,0,
12981,0,13026,2,
12982,0,13027,2,
159,12978,13028,1,
157,12984,13029,1,
283,12983,13030,0,
12985,0,13031,2,
369,12983,13032,0,
148,12988,13033,1,
162,12991,13034,1,
12680,12980,13035,0,
384,12983,13036,0,
12990,0,13037,2,
12992,0,13038,2,
12993,0,13039,2,
373,12983,13040,0,
12992,12993,13041,1,
13020,10839,13042,1,
12976,12913,13043,1,
158,12994,13044,1,
375,12983,13045,0,
12982,12981,13046,1,
12997,0,13047,2,
12999,0,13048,2,
136,13001,13049,1,
912,12983,13050,0,
12837,13004,13051,0,
140,13006,13052,1,
13005,12890,13053,0,
927,12983,13054,0,
12206,13009,13055,0,
13012,12140,13056,1,
13012,12211,13057,0,
380,12983,13058,0,
13015,0,13059,2,
12966,13015,13060,1,
13017,0,13061,2,
13019,0,13062,2,
13020,10839,13063,0,
13023,0,13064,2,
13022,0,13065,2,
373,13024,13066,0,
13025,0,13067,2,
13026,13027,13068,0,
13028,12677,13069,1,
13028,12677,13070,0,
13030,0,13071,2,
13029,12585,13072,1,
12989,13031,13073,0,
13029,12550,13074,0,
369,13024,13075,0,
13032,0,13076,2,
13033,12555,13077,1,
13035,0,13078,2,
13033,12555,13079,0,
13036,0,13080,2,
13034,12589,13081,0,
283,13024,13082,0,
13034,0,13083,2,
384,13024,13084,0,
13038,13039,13085,0,
13040,0,13086,2,
286,13042,13087,0,
13042,12863,13088,1,
13044,12872,13089,1,
13046,0,13090,2,
386,13042,13091,0,
13044,12872,13092,0,
375,13024,13093,0,
13045,0,13094,2,
372,13042,13095,0,
12697,13047,13096,0,
13047,12697,13097,1,
670,13042,13098,0,
13049,12712,13099,1,
267,13042,13100,0,
13050,0,13101,2,
371,13042,13102,0,
368,13042,13103,0,
655,13042,13104,0,
13049,12617,13105,0,
204,13042,13106,0,
367,13042,13107,0,
912,13024,13108,0,
406,13042,13109,0,
13051,0,13110,2,
654,13042,13111,0,
284,13042,13112,0,
13007,13051,13113,1,
13053,0,13114,2,
13054,0,13115,2,
13052,12473,13116,1,
13052,12473,13117,0,
13055,0,13118,2,
927,13024,13119,0,
285,13042,13120,0,
656,13042,13121,0,
13042,12806,13122,0,
380,13024,13123,0,
13056,0,13124,2,
13058,0,13125,2,
13057,0,13126,2,
1569,13042,13127,0,
926,13042,13128,0,
1629,13042,13129,0,
661,13042,13130,0,
381,13042,13131,0,
382,13042,13132,0,
658,13042,13133,0,
13042,0,13134,2,
13016,13059,13135,0,
265,13042,13136,0,
6338,13042,13137,0,
377,13042,13138,0,
13063,0,13139,2,
12918,13064,13140,0,
12979,13065,13141,0,
13066,0,13142,2,
13068,0,13143,2,
13067,12445,13144,0,
13072,0,13145,2,
13064,12918,13146,1,
13070,0,13147,2,
13071,12047,13148,0,
13073,0,13149,2,
13074,0,13150,2,
13075,0,13151,2,
13076,12048,13152,0,
13081,0,13153,2,
13082,0,13154,2,
13079,0,13155,2,
12772,13078,13156,0,
13080,12317,13157,0,
13083,12554,13158,0,
13084,0,13159,2,
13085,0,13160,2,
13086,12054,13161,0,
13087,0,13162,2,
13091,0,13163,2,
13093,0,13164,2,
13094,12058,13165,0,
13092,0,13166,2,
13095,0,13167,2,
13096,0,13168,2,
13098,0,13169,2,
13100,0,13170,2,
13102,0,13171,2,
13103,0,13172,2,
13101,12060,13173,0,
13099,0,13174,2,
13104,0,13175,2,
13105,0,13176,2,
13106,0,13177,2,
13107,0,13178,2,
13108,0,13179,2,
13109,0,13180,2,
13007,13110,13181,0,
13111,0,13182,2,
13113,0,13183,2,
13112,0,13184,2,
13116,13055,13185,1,
13115,12064,13186,0,
13116,13118,13187,0,
13117,0,13188,2,
13119,0,13189,2,
13120,0,13190,2,
13121,0,13191,2,
13122,0,13192,2,
13088,0,13193,2,
13123,0,13194,2,
13125,12071,13195,0,
12283,13126,13196,0,
13128,0,13197,2,
13127,0,13198,2,
13129,0,13199,2,
13130,0,13200,2,
13131,0,13201,2,
13132,0,13202,2,
13133,0,13203,2,
6078,13134,13204,1,
13135,0,13205,2,
13136,0,13206,2,
13137,0,13207,2,
13138,0,13208,2,
10889,13139,13209,0,
12416,13195,13210,0,
13021,13193,13211,0,
13141,0,13212,2,
13140,0,13213,2,
13142,12310,13214,0,
12987,13143,13215,0,
12586,13144,13216,1,
12373,13148,13217,0,
13146,0,13218,2,
13037,13149,13219,0,
13151,12316,13220,0,
12377,13152,13221,0,
13154,12318,13222,0,
12591,13156,13223,1,
13157,12260,13224,0,
13158,0,13225,2,
13159,12191,13226,0,
10593,13209,13227,1,
13069,13141,13228,1,
12996,13160,13229,0,
13161,12388,13230,0,
13163,12938,13231,0,
13164,12326,13232,0,
12392,13165,13233,0,
13167,12939,13234,0,
12783,13168,13235,0,
12713,13170,13236,0,
12401,13173,13237,0,
13172,12947,13238,0,
13179,12332,13239,0,
13181,0,13240,2,
13184,12955,13241,0,
12408,13186,13242,0,
13185,0,13243,2,
13187,0,13244,2,
12476,13188,13245,0,
13189,12336,13246,0,
13011,13193,13247,0,
13194,12338,13248,0,
13196,0,13249,2,
13197,12961,13250,0,
13201,12964,13251,0,
13203,12967,13252,0,
13204,13017,13253,1,
13204,13061,13254,0,
6613,13207,13255,0,
13156,0,13256,2,
13209,0,13257,2,
13211,0,13258,2,
12986,13213,13259,0,
13069,13212,13260,0,
13214,12511,13261,0,
13215,0,13262,2,
13216,0,13263,2,
148,13217,13264,1,
13219,0,13265,2,
12514,13220,13266,0,
157,13221,13267,1,
283,13223,13268,0,
12515,13222,13269,0,
373,13223,13270,0,
162,13224,13271,1,
13226,12516,13272,0,
386,13227,13273,0,
13228,0,13274,2,
13077,13215,13275,1,
13229,13089,13276,1,
13229,0,13277,2,
384,13223,13278,0,
159,13230,13279,1,
369,13223,13280,0,
158,13233,13281,1,
12519,13232,13282,0,
286,13227,13283,0,
13235,0,13284,2,
12999,13235,13285,1,
670,13227,13286,0,
372,13227,13287,0,
375,13223,13288,0,
371,13227,13289,0,
136,13237,13290,1,
655,13227,13291,0,
267,13227,13292,0,
368,13227,13293,0,
204,13227,13294,0,
406,13227,13295,0,
12525,13239,13296,0,
367,13227,13297,0,
13114,13240,13298,0,
912,13223,13299,0,
654,13227,13300,0,
140,13242,13301,1,
284,13227,13302,0,
12527,13246,13303,0,
13245,0,13304,2,
285,13227,13305,0,
13247,13256,13306,0,
12528,13248,13307,0,
13210,11941,13308,1,
13210,11941,13309,0,
377,13227,13310,0,
1569,13227,13311,0,
661,13227,13312,0,
926,13227,13313,0,
265,13227,13314,0,
380,13223,13315,0,
656,13227,13316,0,
1629,13227,13317,0,
382,13227,13318,0,
381,13227,13319,0,
13253,115,13320,1,
13253,0,13321,2,
13227,0,13322,2,
13254,0,13323,2,
13255,0,13324,2,
5310,13227,13325,0,
658,13227,13326,0,
927,13223,13327,0,
13011,13256,13328,0,
12659,13256,13329,0,
13257,10687,13330,0,
13227,13134,13331,1,
13227,13042,13332,0,
13258,13192,13333,0,
13328,0,13334,2,
13260,0,13335,2,
13259,0,13336,2,
159,13261,13337,1,
13077,13262,13338,0,
12937,13279,13339,1,
373,13263,13340,0,
13264,0,13341,2,
283,13263,13342,0,
12866,13267,13343,1,
13153,13265,13344,0,
12866,13267,13345,0,
384,13263,13346,0,
13072,13259,13347,1,
157,13266,13348,1,
148,13269,13349,1,
12828,13271,13350,0,
369,13263,13351,0,
13270,0,13352,2,
12826,13264,13353,0,
13268,0,13354,2,
13271,0,13355,2,
13275,0,13356,2,
13273,0,13357,2,
162,13272,13358,1,
13089,13277,13359,0,
13276,0,13360,2,
13278,0,13361,2,
12937,13279,13362,0,
13280,0,13363,2,
13281,13097,13364,1,
13281,13097,13365,0,
158,13282,13366,1,
375,13263,13367,0,
13048,13284,13368,0,
13283,0,13369,2,
13286,0,13370,2,
13287,0,13371,2,
13288,0,13372,2,
13289,0,13373,2,
13291,0,13374,2,
13290,0,13375,2,
13292,0,13376,2,
13293,0,13377,2,
13294,0,13378,2,
13295,0,13379,2,
912,13263,13380,0,
12884,13290,13381,0,
136,13296,13382,1,
13297,0,13383,2,
13300,0,13384,2,
13299,0,13385,2,
13185,13298,13386,1,
13298,0,13387,2,
13301,12727,13388,1,
13302,0,13389,2,
140,13303,13390,1,
13301,12632,13391,0,
13305,0,13392,2,
13332,0,13393,2,
10691,13330,13394,0,
927,13263,13395,0,
380,13263,13396,0,
13307,12143,13397,0,
13308,13196,13398,1,
13308,13249,13399,0,
13309,0,13400,2,
13310,0,13401,2,
13307,12068,13402,1,
13311,0,13403,2,
13312,0,13404,2,
13313,0,13405,2,
13314,0,13406,2,
13315,0,13407,2,
13316,0,13408,2,
13317,0,13409,2,
13318,0,13410,2,
13319,0,13411,2,
13321,157,13412,0,
5512,13322,13413,1,
13325,0,13414,2,
13326,0,13415,2,
13327,0,13416,2,
13329,0,13417,2,
13331,0,13418,2,
13306,0,13419,2,
13330,0,13420,2,
13420,10733,13421,0,
13333,13419,13422,0,
13147,13335,13423,0,
13145,13336,13424,0,
13417,12681,13425,0,
13337,13218,13426,1,
13338,0,13427,2,
13340,0,13428,2,
13337,13146,13429,0,
12826,13341,13430,1,
13344,0,13431,2,
13342,0,13432,2,
13346,0,13433,2,
13347,0,13434,2,
13345,0,13435,2,
13348,0,13436,2,
13352,12456,13437,0,
13350,0,13438,2,
13349,0,13439,2,
13353,0,13440,2,
13354,12458,13441,0,
13351,0,13442,2,
13355,12870,13443,0,
12974,13334,13444,0,
13043,13349,13445,0,
13358,0,13446,2,
13357,13162,13447,0,
13041,13348,13448,0,
13359,0,13449,2,
13046,13358,13450,0,
13362,0,13451,2,
13361,12701,13452,0,
13363,12466,13453,0,
13365,0,13454,2,
13366,0,13455,2,
13368,0,13456,2,
13367,0,13457,2,
13285,13366,13458,0,
13371,13171,13459,0,
13372,12470,13460,0,
12884,13375,13461,1,
12948,13376,13462,0,
13377,13178,13463,0,
13381,0,13464,2,
13380,0,13465,2,
13382,0,13466,2,
13183,13382,13467,0,
13243,13387,13468,0,
13385,12475,13469,0,
13388,13245,13470,1,
13389,13190,13471,0,
13388,0,13472,2,
13390,0,13473,2,
13391,0,13474,2,
13394,0,13475,2,
13395,0,13476,2,
12894,13390,13477,0,
13396,0,13478,2,
13397,0,13479,2,
13398,0,13480,2,
13399,0,13481,2,
12148,13400,13482,0,
13402,0,13483,2,
13405,13200,13484,0,
13407,12487,13485,0,
13411,13206,13486,0,
13412,0,13487,2,
13413,13255,13488,1,
13413,13324,13489,0,
13415,13208,13490,0,
13416,12488,13491,0,
13422,0,13492,2,
13423,0,13493,2,
13424,0,13494,2,
13426,0,13495,2,
12928,13425,13496,1,
13155,13427,13497,0,
13428,12187,13498,0,
13430,0,13499,2,
13429,0,13500,2,
13432,12189,13501,0,
13225,13431,13502,0,
13331,13422,13503,1,
13041,13436,13504,1,
13433,12454,13505,0,
13442,12192,13506,0,
12778,13441,13507,0,
13043,13439,13508,1,
12777,13437,13509,0,
13088,13444,13510,1,
13443,0,13511,2,
13445,0,13512,2,
13090,13446,13513,0,
13448,0,13514,2,
13166,13449,13515,0,
13450,0,13516,2,
13452,12782,13517,0,
12784,13453,13518,0,
13285,13455,13519,1,
13457,12200,13520,0,
13003,13456,13521,0,
13458,0,13522,2,
12788,13460,13523,0,
13461,0,13524,2,
13465,12205,13525,0,
13113,13466,13526,1,
13467,0,13527,2,
13468,0,13528,2,
12793,13469,13529,0,
13472,13304,13530,0,
12731,13474,13531,0,
12894,13473,13532,1,
13476,12209,13533,0,
13477,0,13534,2,
12215,13479,13535,0,
13478,12214,13536,0,
13402,13482,13537,1,
13482,0,13538,2,
12802,13485,13539,0,
13323,13487,13540,0,
13488,0,13541,2,
10691,13421,13542,1,
13489,0,13543,2,
12805,13491,13544,0,
10880,13475,13545,0,
13418,13492,13546,0,
13150,13494,13547,0,
13339,13493,13548,0,
13496,0,13549,2,
13497,0,13550,2,
13362,13495,13551,0,
12774,13498,13552,0,
13502,0,13553,2,
12776,13501,13554,0,
283,13503,13555,0,
13505,12779,13556,0,
159,13509,13557,1,
12780,13506,13558,0,
148,13507,13559,1,
13508,0,13560,2,
283,13510,13561,0,
13504,0,13562,2,
13493,13339,13563,1,
373,13510,13564,0,
13493,13339,13565,0,
13515,0,13566,2,
13542,0,13567,2,
162,13517,13568,1,
13430,13497,13569,1,
157,13518,13570,1,
13519,0,13571,2,
13099,13521,13572,1,
12785,13520,13573,0,
384,13510,13574,0,
373,13503,13575,0,
369,13510,13576,0,
13521,0,13577,2,
384,13503,13578,0,
369,13503,13579,0,
158,13523,13580,1,
375,13510,13581,0,
12792,13525,13582,0,
375,13503,13583,0,
136,13529,13584,1,
13244,13528,13585,0,
13530,0,13586,2,
13532,13531,13587,1,
12795,13533,13588,0,
12959,13534,13589,0,
12481,13535,13590,1,
13535,0,13591,2,
12796,13536,13592,0,
927,13510,13593,0,
13483,13538,13594,0,
927,13503,13595,0,
380,13510,13596,0,
13532,0,13597,2,
13531,0,13598,2,
912,13510,13599,0,
380,13503,13600,0,
13540,0,13601,2,
13488,13540,13602,1,
912,13503,13603,0,
13414,13543,13604,0,
6054,13542,13605,1,
140,13544,13606,1,
13545,0,13607,2,
10849,13545,13608,1,
13546,0,13609,2,
13548,13495,13610,0,
13547,0,13611,2,
373,13549,13612,0,
159,13552,13613,1,
13550,13499,13614,0,
13551,0,13615,2,
148,13554,13616,1,
13438,13553,13617,0,
13555,0,13618,2,
283,13549,13619,0,
162,13556,13620,1,
157,13558,13621,1,
13559,0,13622,2,
13561,0,13623,2,
13564,0,13624,2,
13565,0,13625,2,
369,13549,13626,0,
384,13549,13627,0,
386,13567,13628,0,
13563,13559,13629,0,
13566,13364,13630,0,
13569,13568,13631,0,
13608,0,13632,2,
286,13567,13633,0,
13566,13364,13634,1,
13568,0,13635,2,
13569,0,13636,2,
670,13567,13637,0,
13574,0,13638,2,
372,13567,13639,0,
13575,0,13640,2,
13576,0,13641,2,
158,13573,13642,1,
13572,0,13643,2,
13174,13577,13644,0,
371,13567,13645,0,
13578,0,13646,2,
13580,0,13647,2,
13579,0,13648,2,
267,13567,13649,0,
655,13567,13650,0,
204,13567,13651,0,
375,13549,13652,0,
368,13567,13653,0,
406,13567,13654,0,
13581,0,13655,2,
136,13582,13656,1,
367,13567,13657,0,
13583,0,13658,2,
654,13567,13659,0,
13470,13585,13660,1,
13584,0,13661,2,
912,13549,13662,0,
13585,0,13663,2,
284,13567,13664,0,
13567,13322,13665,1,
140,13588,13666,1,
13589,0,13667,2,
927,13549,13668,0,
13592,13590,13669,0,
12529,13591,13670,0,
658,13567,13671,0,
13593,0,13672,2,
380,13549,13673,0,
13594,0,13674,2,
13592,13590,13675,1,
377,13567,13676,0,
926,13567,13677,0,
13595,0,13678,2,
13596,0,13679,2,
381,13567,13680,0,
13597,13598,13681,0,
285,13567,13682,0,
661,13567,13683,0,
13599,0,13684,2,
265,13567,13685,0,
13600,0,13686,2,
1629,13567,13687,0,
13541,13601,13688,0,
13603,0,13689,2,
13605,13604,13690,1,
6054,13567,13691,0,
13605,0,13692,2,
13604,0,13693,2,
13608,7076,13694,1,
382,13567,13695,0,
1569,13567,13696,0,
656,13567,13697,0,
13607,10849,13698,0,
13567,13227,13699,0,
13393,13609,13700,0,
13610,0,13701,2,
13611,13343,13702,0,
13612,0,13703,2,
13614,0,13704,2,
13613,13434,13705,1,
13611,13343,13706,1,
13617,0,13707,2,
13613,13347,13708,0,
13616,13274,13709,1,
13616,13274,13710,0,
13356,13620,13711,0,
13619,0,13712,2,
13618,12935,13713,0,
13563,13622,13714,1,
13621,13360,13715,1,
13620,0,13716,2,
13623,12703,13717,0,
13621,13360,13718,0,
13624,12704,13719,0,
13451,13625,13720,0,
13626,0,13721,2,
13630,0,13722,2,
13629,0,13723,2,
13627,0,13724,2,
13628,0,13725,2,
13631,0,13726,2,
13633,0,13727,2,
386,13632,13728,0,
13570,13634,13729,1,
286,13632,13730,0,
13570,13634,13731,0,
13635,13636,13732,0,
13637,0,13733,2,
13642,13643,13734,1,
13641,12715,13735,0,
13638,12945,13736,0,
13640,12946,13737,0,
13639,0,13738,2,
372,13632,13739,0,
13644,0,13740,2,
670,13632,13741,0,
13645,0,13742,2,
13642,13572,13743,0,
13646,13177,13744,0,
13648,12949,13745,0,
371,13632,13746,0,
267,13632,13747,0,
13650,0,13748,2,
13649,0,13749,2,
13651,0,13750,2,
13652,0,13751,2,
13653,0,13752,2,
204,13632,13753,0,
406,13632,13754,0,
655,13632,13755,0,
368,13632,13756,0,
13655,12724,13757,0,
13654,0,13758,2,
13656,0,13759,2,
13657,0,13760,2,
13386,13656,13761,0,
367,13632,13762,0,
13658,12956,13763,0,
13659,0,13764,2,
13662,0,13765,2,
13660,13661,13766,1,
13470,13663,13767,0,
13660,0,13768,2,
13664,0,13769,2,
654,13632,13770,0,
13699,0,13771,2,
13666,0,13772,2,
13124,13666,13773,0,
13668,0,13774,2,
13669,0,13775,2,
13670,0,13776,2,
13671,0,13777,2,
13672,12736,13778,0,
13673,0,13779,2,
658,13632,13780,0,
13676,0,13781,2,
13677,0,13782,2,
13678,12963,13783,0,
13679,12744,13784,0,
13680,0,13785,2,
926,13632,13786,0,
13681,0,13787,2,
284,13632,13788,0,
13682,0,13789,2,
13684,12749,13790,0,
13683,0,13791,2,
381,13632,13792,0,
1569,13632,13793,0,
13685,0,13794,2,
13686,12969,13795,0,
1629,13632,13796,0,
661,13632,13797,0,
13687,0,13798,2,
13688,0,13799,2,
382,13632,13800,0,
13689,12972,13801,0,
13691,0,13802,2,
13692,13693,13803,0,
265,13632,13804,0,
656,13632,13805,0,
13695,0,13806,2,
7176,13632,13807,0,
377,13632,13808,0,
13696,0,13809,2,
285,13632,13810,0,
13697,0,13811,2,
13698,0,13812,2,
13632,13542,13813,1,
13632,13567,13814,0,
13665,0,13815,2,
13700,0,13816,2,
13702,0,13817,2,
13701,13500,13818,0,
13703,12688,13819,0,
13705,0,13820,2,
13440,13704,13821,0,
13706,0,13822,2,
13511,13707,13823,0,
13710,0,13824,2,
13708,0,13825,2,
13709,0,13826,2,
13447,13713,13827,0,
13712,12699,13828,0,
13711,0,13829,2,
13557,13706,13830,0,
13275,13716,13831,0,
13714,0,13832,2,
13448,13715,13833,0,
13562,13715,13834,0,
13718,0,13835,2,
13231,13717,13836,0,
13665,13700,13837,1,
13426,13720,13838,1,
13234,13719,13839,0,
13721,12708,13840,0,
13725,13369,13841,0,
13454,13722,13842,0,
13724,12710,13843,0,
13727,13370,13844,0,
13728,0,13845,2,
13731,0,13846,2,
13732,0,13847,2,
13730,0,13848,2,
13238,13735,13849,0,
13736,13236,13850,0,
13459,13737,13851,0,
13738,13373,13852,0,
13734,0,13853,2,
13739,0,13854,2,
13176,13740,13855,0,
13741,0,13856,2,
13743,0,13857,2,
13744,13462,13858,0,
13746,0,13859,2,
13463,13745,13860,0,
13747,0,13861,2,
13180,13749,13862,0,
13751,12722,13863,0,
13752,13383,13864,0,
13755,0,13865,2,
13753,0,13866,2,
13754,0,13867,2,
13241,13757,13868,0,
13756,0,13869,2,
13386,13759,13870,1,
13471,13763,13871,0,
13762,0,13872,2,
13761,0,13873,2,
13765,12730,13874,0,
13767,0,13875,2,
13769,13392,13876,0,
13768,13584,13877,0,
13770,0,13878,2,
13813,0,13879,2,
13056,13772,13880,1,
13773,0,13881,2,
13774,12735,13882,0,
13777,13401,13883,0,
13776,13775,13884,0,
13250,13778,13885,0,
13780,0,13886,2,
13779,12742,13887,0,
13782,13404,13888,0,
13484,13783,13889,0,
13251,13784,13890,0,
13785,13406,13891,0,
13788,0,13892,2,
13786,0,13893,2,
13252,13790,13894,0,
13792,0,13895,2,
13793,0,13896,2,
13486,13795,13897,0,
13796,0,13898,2,
13797,0,13899,2,
13800,0,13900,2,
13490,13801,13901,0,
13803,0,13902,2,
6368,13802,13903,0,
13805,0,13904,2,
13804,0,13905,2,
13807,0,13906,2,
13808,0,13907,2,
13810,0,13908,2,
10891,13812,13909,0,
13814,0,13910,2,
13815,13816,13911,0,
13818,13615,13912,0,
13435,13817,13913,0,
12995,13819,13914,0,
13821,0,13915,2,
13557,13822,13916,1,
13826,13824,13917,0,
13512,13824,13918,0,
13823,0,13919,2,
148,13827,13920,1,
13513,13829,13921,0,
12998,13828,13922,0,
13833,0,13923,2,
13831,0,13924,2,
283,13837,13925,0,
148,13836,13926,1,
159,13839,13927,1,
13000,13840,13928,0,
13843,13002,13929,0,
13830,0,13930,2,
13842,0,13931,2,
13844,13845,13932,0,
13519,13842,13933,1,
13508,13821,13934,1,
373,13837,13935,0,
13848,13733,13936,0,
159,13851,13937,1,
157,13849,13938,1,
162,13850,13939,1,
13854,13742,13940,0,
13461,13855,13941,1,
384,13837,13942,0,
13855,0,13943,2,
162,13858,13944,1,
13379,13861,13945,0,
157,13860,13946,1,
369,13837,13947,0,
13008,13863,13948,0,
158,13868,13949,1,
13869,13760,13950,0,
13870,0,13951,2,
158,13871,13952,1,
375,13837,13953,0,
13010,13874,13954,0,
13586,13875,13955,0,
13877,0,13956,2,
13880,13667,13957,0,
912,13837,13958,0,
13013,13882,13959,0,
13884,0,13960,2,
140,13885,13961,1,
927,13837,13962,0,
13014,13887,13963,0,
13886,13781,13964,0,
380,13837,13965,0,
140,13889,13966,1,
12801,13890,13967,1,
13880,13589,13968,1,
12643,13884,13969,1,
13892,13789,13970,0,
13893,13791,13971,0,
136,13894,13972,1,
13895,13794,13973,0,
13890,12844,13974,0,
12970,13897,13975,1,
13897,13018,13976,0,
136,13901,13977,1,
13694,13903,13978,1,
13903,0,13979,2,
7179,13906,13980,0,
13909,0,13981,2,
13911,0,13982,2,
13504,13913,13983,1,
13912,0,13984,2,
159,13914,13985,1,
13913,0,13986,2,
13915,13560,13987,0,
13916,0,13988,2,
13919,13829,13989,0,
13917,0,13990,2,
148,13922,13991,1,
13921,0,13992,2,
13920,0,13993,2,
13705,13912,13994,1,
13835,13923,13995,0,
13925,0,13996,2,
13981,10647,13997,1,
157,13928,13998,1,
162,13929,13999,1,
13571,13931,14000,0,
13934,0,14001,2,
13935,0,14002,2,
13939,0,14003,2,
13941,13647,14004,1,
13942,0,14005,2,
13524,13943,14006,0,
13944,0,14007,2,
13941,13580,14008,0,
13947,0,14009,2,
158,13948,14010,1,
13949,0,14011,2,
13952,0,14012,2,
13953,0,14013,2,
136,13954,14014,1,
13587,13955,14015,1,
13978,121,14016,1,
13957,0,14017,2,
13958,0,14018,2,
140,13959,14019,1,
12737,13960,14020,0,
13961,0,14021,2,
13962,0,14022,2,
13955,0,14023,2,
13965,0,14024,2,
13675,13961,14025,0,
13539,13969,14026,1,
13966,0,14027,2,
13539,13969,14028,0,
13967,0,14029,2,
13974,0,14030,2,
13975,0,14031,2,
13976,0,14032,2,
13968,0,14033,2,
13978,0,14034,2,
13694,13979,14035,0,
13980,0,14036,2,
10647,13981,14037,0,
13771,13982,14038,0,
14037,0,14039,2,
13820,13984,14040,0,
13983,0,14041,2,
13562,13986,14042,0,
13987,0,14043,2,
13985,13983,14044,0,
13834,13986,14045,0,
13832,13990,14046,0,
13989,13516,14047,0,
13991,0,14048,2,
13992,13924,14049,0,
13926,13994,14050,1,
13926,13994,14051,0,
13996,13169,14052,0,
13838,13991,14053,0,
13998,0,14054,2,
386,13997,14055,0,
13934,13999,14056,0,
14000,0,14057,2,
13999,0,14058,2,
13933,13998,14059,0,
14002,13175,14060,0,
286,13997,14061,0,
372,13997,14062,0,
14005,13378,14063,0,
670,13997,14064,0,
14004,0,14065,2,
14006,0,14066,2,
406,13997,14067,0,
14008,0,14068,2,
267,13997,14069,0,
204,13997,14070,0,
14009,13182,14071,0,
371,13997,14072,0,
14010,0,14073,2,
655,13997,14074,0,
368,13997,14075,0,
367,13997,14076,0,
14013,13191,14077,0,
14014,0,14078,2,
13881,14017,14079,0,
14018,13198,14080,0,
14019,0,14081,2,
14020,0,14082,2,
13675,14021,14083,1,
14022,13199,14084,0,
13587,14023,14085,0,
14024,13202,14086,0,
14025,0,14087,2,
14015,0,14088,2,
14026,14027,14089,1,
14026,13966,14090,0,
654,13997,14091,0,
377,13997,14092,0,
1569,13997,14093,0,
14028,0,14094,2,
1629,13997,14095,0,
661,13997,14096,0,
926,13997,14097,0,
13062,14032,14098,0,
265,13997,14099,0,
382,13997,14100,0,
381,13997,14101,0,
285,13997,14102,0,
14034,158,14103,0,
656,13997,14104,0,
13997,0,14105,2,
14035,0,14106,2,
658,13997,14107,0,
5545,13997,14108,0,
284,13997,14109,0,
13997,13632,14110,0,
13997,13632,14111,1,
14038,0,14112,2,
13838,14048,14113,1,
14040,0,14114,2,
13985,14041,14115,1,
14042,0,14116,2,
13918,14043,14117,0,
14044,0,14118,2,
14047,0,14119,2,
14045,0,14120,2,
13813,14038,14121,1,
13841,14052,14122,0,
13512,14043,14123,0,
13933,14054,14124,1,
14055,0,14125,2,
14056,0,14126,2,
13522,14057,14127,0,
14058,14001,14128,0,
13852,14060,14129,0,
14059,0,14130,2,
14061,0,14131,2,
14062,0,14132,2,
14053,0,14133,2,
14064,0,14134,2,
14063,13862,14135,0,
13464,14066,14136,0,
14067,0,14137,2,
14072,0,14138,2,
14069,0,14139,2,
13864,14071,14140,0,
14070,0,14141,2,
14074,0,14142,2,
14075,0,14143,2,
13876,14077,14144,0,
14076,0,14145,2,
14015,14078,14146,1,
14110,0,14147,2,
14079,0,14148,2,
13883,14080,14149,0,
12797,14082,14150,0,
13888,14084,14151,0,
14083,0,14152,2,
14085,0,14153,2,
13891,14086,14154,0,
14088,14014,14155,0,
14089,0,14156,2,
14090,0,14157,2,
14092,0,14158,2,
14091,0,14159,2,
14093,0,14160,2,
14096,0,14161,2,
14095,0,14162,2,
14097,0,14163,2,
14098,0,14164,2,
14099,0,14165,2,
14100,0,14166,2,
13398,14079,14167,1,
14102,0,14168,2,
14101,0,14169,2,
14104,0,14170,2,
5833,14105,14171,1,
14103,0,14172,2,
14107,0,14173,2,
14108,0,14174,2,
14109,0,14175,2,
14051,0,14176,2,
10695,14039,14177,0,
13879,14112,14178,0,
14115,0,14179,2,
13825,14114,14180,0,
14116,13514,14181,0,
14117,0,14182,2,
13995,14120,14183,0,
14049,14119,14184,0,
14113,0,14185,2,
283,14121,14186,0,
148,14122,14187,1,
14123,0,14188,2,
14124,0,14189,2,
13936,14125,14190,0,
13734,14127,14191,1,
373,14121,14192,0,
14127,0,14193,2,
14128,0,14194,2,
159,14129,14195,1,
384,14121,14196,0,
14132,13859,14197,0,
162,14135,14198,1,
14136,0,14199,2,
13526,14136,14200,1,
369,14121,14201,0,
157,14140,14202,1,
13758,14139,14203,0,
14143,13872,14204,0,
158,14144,14205,1,
13480,14148,14206,0,
136,14149,14207,1,
912,14121,14208,0,
12798,14150,14209,1,
14150,0,14210,2,
140,14151,14211,1,
375,14121,14212,0,
927,14121,14213,0,
13787,14153,14214,0,
14154,13060,14215,0,
380,14121,14216,0,
14155,0,14217,2,
14094,14157,14218,0,
14154,13060,14219,1,
14163,13899,14220,0,
14167,13606,14221,1,
14167,13606,14222,0,
14169,13905,14223,0,
14171,13980,14224,1,
14106,14172,14225,0,
14173,13907,14226,0,
14171,14036,14227,0,
14175,13908,14228,0,
14177,0,14229,2,
14178,0,14230,2,
13988,14179,14231,0,
13830,14179,14232,0,
14180,0,14233,2,
13916,14180,14234,1,
13715,14181,14235,1,
14046,14182,14236,0,
14184,0,14237,2,
14183,0,14238,2,
14186,0,14239,2,
14187,0,14240,2,
14188,13826,14241,1,
13709,14188,14242,0,
14229,10728,14243,1,
14191,0,14244,2,
14192,0,14245,2,
13853,14193,14246,0,
14196,0,14247,2,
13938,14191,14248,0,
14198,0,14249,2,
13526,14199,14250,0,
14201,0,14251,2,
14200,14073,14252,1,
14200,0,14253,2,
14202,0,14254,2,
14205,0,14255,2,
14224,14225,14256,1,
14206,0,14257,2,
14208,0,14258,2,
14209,13963,14259,1,
12798,14210,14260,0,
14209,0,14261,2,
14212,0,14262,2,
14213,0,14263,2,
13968,14214,14264,1,
14215,0,14265,2,
14216,0,14266,2,
14218,0,14267,2,
14219,14098,14268,1,
14219,14164,14269,0,
14214,0,14270,2,
13977,14221,14271,1,
13977,14221,14272,0,
14222,0,14273,2,
14207,0,14274,2,
14225,0,14275,2,
14224,0,14276,2,
14227,0,14277,2,
14229,10728,14278,0,
13910,14230,14279,0,
14232,0,14280,2,
14231,14233,14281,0,
14234,13993,14282,1,
14236,0,14283,2,
14235,0,14284,2,
14234,13920,14285,0,
13988,14233,14286,0,
13726,14237,14287,0,
13729,14238,14288,0,
13932,14239,14289,0,
14242,0,14290,2,
386,14243,14291,0,
14238,13729,14292,1,
14241,0,14293,2,
14245,13374,14294,0,
13938,14244,14295,1,
14246,0,14296,2,
14003,14241,14297,0,
14247,13750,14298,0,
286,14243,14299,0,
14248,0,14300,2,
204,14243,14301,0,
267,14243,14302,0,
372,14243,14303,0,
670,14243,14304,0,
14250,0,14305,2,
14253,14010,14306,0,
14251,13384,14307,0,
371,14243,14308,0,
406,14243,14309,0,
655,14243,14310,0,
368,14243,14311,0,
14243,14105,14312,1,
14243,0,14313,2,
13481,14257,14314,0,
14258,13403,14315,0,
14259,0,14316,2,
13963,14261,14317,0,
14260,0,14318,2,
14262,13408,14319,0,
14263,13409,14320,0,
14264,0,14321,2,
13205,14265,14322,0,
367,14243,14323,0,
658,14243,14324,0,
377,14243,14325,0,
14266,13410,14326,0,
661,14243,14327,0,
926,14243,14328,0,
1569,14243,14329,0,
14268,0,14330,2,
381,14243,14331,0,
1629,14243,14332,0,
14269,0,14333,2,
14033,14270,14334,0,
13972,14264,14335,0,
265,14243,14336,0,
284,14243,14337,0,
14272,0,14338,2,
285,14243,14339,0,
382,14243,14340,0,
14276,14275,14341,0,
656,14243,14342,0,
6135,14243,14343,0,
14174,14277,14344,0,
654,14243,14345,0,
14278,0,14346,2,
13997,14243,14347,0,
14279,0,14348,2,
10730,14346,14349,0,
13723,14283,14350,0,
14281,0,14351,2,
14280,14118,14352,0,
14282,0,14353,2,
13927,14284,14354,1,
14111,14279,14355,1,
14286,0,14356,2,
14285,0,14357,2,
13927,14284,14358,0,
14288,0,14359,2,
14287,0,14360,2,
13937,14292,14361,1,
148,14289,14362,1,
14291,0,14363,2,
13937,14292,14364,0,
14290,13824,14365,0,
13939,14293,14366,0,
13940,14294,14367,0,
13857,14296,14368,0,
14295,0,14369,2,
14297,0,14370,2,
14299,0,14371,2,
14298,13945,14372,0,
14301,0,14373,2,
14303,0,14374,2,
14304,0,14375,2,
14302,0,14376,2,
13527,14305,14377,0,
13950,14307,14378,0,
14306,0,14379,2,
14308,0,14380,2,
14309,0,14381,2,
14310,0,14382,2,
14311,0,14383,2,
14314,0,14384,2,
13537,14314,14385,1,
13964,14315,14386,0,
14211,14316,14387,0,
14317,0,14388,2,
12905,14318,14389,0,
13970,14319,14390,0,
13971,14320,14391,0,
13972,14321,14392,1,
14211,14316,14393,1,
14324,0,14394,2,
14323,0,14395,2,
13320,14322,14396,1,
14325,0,14397,2,
13973,14326,14398,0,
14322,0,14399,2,
14328,0,14400,2,
14327,0,14401,2,
14329,0,14402,2,
14331,0,14403,2,
14332,0,14404,2,
14334,0,14405,2,
14335,0,14406,2,
14336,0,14407,2,
14337,0,14408,2,
14339,0,14409,2,
14273,14338,14410,0,
14340,0,14411,2,
14341,0,14412,2,
14342,0,14413,2,
6135,14313,14414,1,
14343,0,14415,2,
14344,0,14416,2,
14345,0,14417,2,
14347,0,14418,2,
14312,0,14419,2,
14111,14348,14420,0,
10784,14349,14421,1,
14352,14351,14422,0,
14353,14050,14423,0,
14051,14353,14424,0,
14350,0,14425,2,
14358,0,14426,2,
14356,13930,14427,0,
14355,0,14428,2,
13846,14359,14429,0,
13847,14360,14430,0,
14363,14131,14431,0,
14364,0,14432,2,
14366,0,14433,2,
14365,13714,14434,0,
159,14367,14435,1,
14004,14368,14436,1,
14368,0,14437,2,
14349,0,14438,2,
14350,14113,14439,1,
162,14372,14440,1,
14137,14373,14441,0,
14374,14138,14442,0,
13867,14376,14443,0,
13870,14377,14444,1,
14377,0,14445,2,
157,14378,14446,1,
14383,14145,14447,0,
14414,14344,14448,1,
14385,14081,14449,1,
13537,14384,14450,0,
14385,0,14451,2,
136,14386,14452,1,
14387,0,14453,2,
13967,14389,14454,1,
14389,0,14455,2,
158,14390,14456,1,
140,14391,14457,1,
14393,14218,14458,1,
14394,14158,14459,0,
14396,0,14460,2,
13320,14399,14461,0,
14393,14267,14462,0,
14400,14161,14463,0,
14398,14396,14464,1,
14392,0,14465,2,
14403,14165,14466,0,
14405,14406,14467,0,
14408,14168,14468,0,
14410,0,14469,2,
14414,0,14470,2,
6396,14415,14471,0,
14420,0,14472,2,
14422,0,14473,2,
14424,0,14474,2,
14423,14185,14475,0,
14053,14423,14476,0,
14115,14427,14477,1,
283,14428,14478,0,
14422,14354,14479,1,
14430,0,14480,2,
14429,0,14481,2,
14124,14429,14482,1,
14185,14425,14483,0,
14434,0,14484,2,
373,14428,14485,0,
14421,0,14486,2,
14436,0,14487,2,
14065,14437,14488,0,
10837,14438,14489,0,
10879,14438,14490,0,
14439,0,14491,2,
13946,14436,14492,0,
384,14428,14493,0,
14439,14198,14494,0,
14440,0,14495,2,
13951,14445,14496,0,
14444,14011,14497,1,
369,14428,14498,0,
14446,0,14499,2,
14444,13949,14500,0,
11060,14438,14501,0,
14421,14313,14502,1,
10784,14438,14503,0,
14451,14019,14504,0,
14449,14207,14505,0,
14450,0,14506,2,
14388,14453,14507,0,
14456,0,14508,2,
14029,14455,14509,0,
14458,0,14510,2,
14398,14460,14511,0,
14461,0,14512,2,
14462,0,14513,2,
927,14428,14514,0,
14464,0,14515,2,
380,14428,14516,0,
14271,14467,14517,1,
14467,0,14518,2,
14449,14274,14519,1,
14452,0,14520,2,
912,14428,14521,0,
14470,14416,14522,0,
375,14428,14523,0,
14471,0,14524,2,
11015,14438,14525,0,
10950,14438,14526,0,
14147,14472,14527,0,
14354,14473,14528,0,
14476,0,14529,2,
14357,14474,14530,0,
14475,14425,14531,0,
14477,14240,14532,1,
14478,0,14533,2,
14479,0,14534,2,
14477,14187,14535,0,
14126,14480,14536,0,
14189,14481,14537,0,
14482,0,14538,2,
14195,14482,14539,0,
14485,0,14540,2,
14484,14283,14541,0,
14483,0,14542,2,
386,14486,14543,0,
13946,14487,14544,1,
14489,0,14545,2,
14488,0,14546,2,
286,14486,14547,0,
267,14486,14548,0,
14491,14249,14549,0,
14494,0,14550,2,
14490,0,14551,2,
14493,0,14552,2,
14492,0,14553,2,
372,14486,14554,0,
204,14486,14555,0,
670,14486,14556,0,
14497,0,14557,2,
14496,0,14558,2,
14498,0,14559,2,
371,14486,14560,0,
406,14486,14561,0,
14500,0,14562,2,
14501,0,14563,2,
655,14486,14564,0,
14526,0,14565,2,
14503,0,14566,2,
13674,14506,14567,0,
14504,0,14568,2,
14505,0,14569,2,
14454,14507,14570,1,
368,14486,14571,0,
658,14486,14572,0,
656,14486,14573,0,
14507,0,14574,2,
14509,0,14575,2,
14511,0,14576,2,
1569,14486,14577,0,
926,14486,14578,0,
377,14486,14579,0,
1629,14486,14580,0,
14514,0,14581,2,
661,14486,14582,0,
381,14486,14583,0,
14517,0,14584,2,
14516,0,14585,2,
14271,14518,14586,0,
654,14486,14587,0,
284,14486,14588,0,
265,14486,14589,0,
14519,14410,14590,1,
14519,0,14591,2,
14521,0,14592,2,
382,14486,14593,0,
285,14486,14594,0,
5839,14486,14595,1,
367,14486,14596,0,
14522,0,14597,2,
14523,0,14598,2,
6141,14486,14599,0,
14525,0,14600,2,
14486,14243,14601,0,
14527,0,14602,2,
14528,0,14603,2,
14530,14529,14604,0,
14531,0,14605,2,
14362,14534,14606,0,
14362,14534,14607,1,
14532,0,14608,2,
14190,14533,14609,0,
14312,14527,14610,1,
14535,0,14611,2,
14536,0,14612,2,
14537,0,14613,2,
14195,14538,14614,1,
14539,0,14615,2,
14540,13748,14616,0,
14542,14133,14617,0,
14541,13944,14618,0,
14541,0,14619,2,
14543,0,14620,2,
14544,0,14621,2,
14547,0,14622,2,
14548,0,14623,2,
11014,14545,14624,0,
14068,14546,14625,0,
14552,13866,14626,0,
11202,14551,14627,0,
14554,0,14628,2,
14555,0,14629,2,
14556,0,14630,2,
14559,13764,14631,0,
13873,14558,14632,0,
14560,0,14633,2,
14561,0,14634,2,
11739,14563,14635,0,
14564,0,14636,2,
14568,14569,14637,0,
14083,14567,14638,1,
14567,0,14639,2,
14570,0,14640,2,
14573,0,14641,2,
14571,0,14642,2,
14454,14574,14643,0,
14572,0,14644,2,
14030,14575,14645,0,
14512,14576,14646,0,
14577,0,14647,2,
14578,0,14648,2,
14579,0,14649,2,
14581,13798,14650,0,
14580,0,14651,2,
14582,0,14652,2,
14583,0,14653,2,
14585,13806,14654,0,
14588,0,14655,2,
14589,0,14656,2,
14587,0,14657,2,
14586,0,14658,2,
14591,14469,14659,0,
14592,13809,14660,0,
14594,0,14661,2,
14593,0,14662,2,
14595,14471,14663,1,
14596,0,14664,2,
14595,0,14665,2,
14598,13811,14666,0,
14599,0,14667,2,
11666,14600,14668,0,
14601,0,14669,2,
14566,10883,14670,0,
11429,14565,14671,0,
14223,14654,14672,0,
13602,14646,14673,1,
14602,14419,14674,0,
14426,14603,14675,0,
14604,14605,14676,0,
14606,0,14677,2,
14607,0,14678,2,
283,14610,14679,0,
148,14609,14680,1,
14194,14612,14681,0,
14130,14613,14682,0,
14614,0,14683,2,
14614,14615,14684,0,
14432,14615,14685,0,
14197,14616,14686,0,
14618,0,14687,2,
14617,0,14688,2,
10414,14670,14689,1,
14007,14619,14690,0,
14620,14371,14691,0,
14248,14621,14692,0,
14369,14621,14693,0,
373,14610,14694,0,
384,14610,14695,0,
14441,14623,14696,0,
10577,14624,14697,1,
14625,0,14698,2,
7613,14627,14699,1,
14626,14203,14700,0,
14252,14625,14701,1,
7498,14671,14702,1,
14628,14380,14703,0,
14204,14631,14704,0,
13766,14632,14705,1,
14632,0,14706,2,
369,14610,14707,0,
14635,0,14708,2,
6841,14668,14709,1,
14638,14637,14710,1,
14637,0,14711,2,
14152,14639,14712,0,
912,14610,14713,0,
14457,14640,14714,0,
14643,0,14715,2,
14644,14397,14716,0,
14642,14395,14717,0,
13975,14645,14718,1,
14645,0,14719,2,
927,14610,14720,0,
14457,14640,14721,1,
14646,0,14722,2,
14648,14401,14723,0,
380,14610,14724,0,
14220,14650,14725,0,
14653,14407,14726,0,
375,14610,14727,0,
14655,14409,14728,0,
14659,0,14729,2,
14226,14660,14730,0,
14663,106,14731,1,
14665,14524,14732,0,
14663,136,14733,0,
6400,14667,14734,0,
14228,14666,14735,0,
14674,0,14736,2,
14675,0,14737,2,
14676,0,14738,2,
14678,14479,14739,0,
14611,14677,14740,0,
14679,0,14741,2,
14681,0,14742,2,
14295,14682,14743,1,
14682,0,14744,2,
14684,0,14745,2,
159,14686,14746,1,
14688,14050,14747,1,
386,14689,14748,0,
14690,0,14749,2,
14694,0,14750,2,
14692,0,14751,2,
14695,0,14752,2,
14689,14697,14753,0,
14252,14698,14754,0,
14701,0,14755,2,
267,14689,14756,0,
14676,14532,14757,1,
14701,14254,14758,1,
14699,0,14759,2,
162,14700,14760,1,
286,14689,14761,0,
386,14697,14762,0,
14709,0,14763,2,
372,14689,14764,0,
267,14697,14765,0,
204,14689,14766,0,
286,14697,14767,0,
670,14689,14768,0,
406,14689,14769,0,
14705,14012,14770,1,
157,14704,14771,1,
204,14697,14772,0,
13766,14706,14773,0,
14707,0,14774,2,
14705,0,14775,2,
670,14697,14776,0,
386,14702,14777,0,
371,14689,14778,0,
372,14697,14779,0,
267,14702,14780,0,
406,14697,14781,0,
14708,7039,14782,0,
406,14702,14783,0,
204,14702,14784,0,
286,14702,14785,0,
14689,14486,14786,1,
14710,0,14787,2,
14638,14711,14788,0,
14712,0,14789,2,
371,14697,14790,0,
285,14689,14791,0,
284,14697,14792,0,
655,14689,14793,0,
14713,0,14794,2,
14714,0,14795,2,
670,14702,14796,0,
656,14689,14797,0,
285,14697,14798,0,
377,14689,14799,0,
658,14697,14800,0,
14031,14719,14801,0,
14720,0,14802,2,
658,14689,14803,0,
926,14697,14804,0,
661,14689,14805,0,
13602,14722,14806,0,
14724,0,14807,2,
1569,14689,14808,0,
377,14697,14809,0,
926,14689,14810,0,
140,14725,14811,1,
661,14697,14812,0,
1629,14689,14813,0,
14727,0,14814,2,
368,14697,14815,0,
367,14689,14816,0,
14672,14673,14817,1,
285,14702,14818,0,
656,14702,14819,0,
381,14689,14820,0,
1569,14697,14821,0,
658,14702,14822,0,
14673,0,14823,2,
377,14702,14824,0,
367,14697,14825,0,
661,14702,14826,0,
1629,14697,14827,0,
926,14702,14828,0,
1569,14702,14829,0,
654,14689,14830,0,
14710,14520,14831,1,
1629,14702,14832,0,
381,14697,14833,0,
265,14689,14834,0,
284,14689,14835,0,
136,14730,14836,1,
382,14689,14837,0,
265,14697,14838,0,
368,14689,14839,0,
14731,0,14840,2,
655,14702,14841,0,
14689,0,14842,2,
14732,0,14843,2,
14733,0,14844,2,
158,14735,14845,1,
284,14702,14846,0,
656,14697,14847,0,
381,14702,14848,0,
382,14697,14849,0,
654,14702,14850,0,
367,14702,14851,0,
265,14702,14852,0,
368,14702,14853,0,
654,14697,14854,0,
14734,0,14855,2,
371,14702,14856,0,
5553,14689,14857,0,
372,14702,14858,0,
655,14697,14859,0,
14688,14050,14860,0,
14702,0,14861,2,
14689,14486,14862,0,
14418,14736,14863,0,
14697,14842,14864,1,
14737,14361,14865,1,
14608,14738,14866,0,
14737,14361,14867,0,
14741,13856,14868,0,
14739,0,14869,2,
14743,0,14870,2,
14433,14742,14871,0,
14369,14744,14872,0,
14435,14743,14873,0,
14746,0,14874,2,
14747,14440,14875,0,
14693,14744,14876,0,
14747,0,14877,2,
14748,0,14878,2,
14750,13865,14879,0,
14752,14141,14880,0,
14751,14553,14881,0,
14754,0,14882,2,
14753,0,14883,2,
14697,14759,14884,0,
14757,0,14885,2,
14697,14759,14886,1,
14755,14202,14887,0,
14756,0,14888,2,
14759,14702,14889,0,
14760,0,14890,2,
14761,0,14891,2,
14762,0,14892,2,
14765,0,14893,2,
386,14759,14894,0,
14766,0,14895,2,
14764,0,14896,2,
14702,14763,14897,1,
267,14759,14898,0,
14768,0,14899,2,
14767,0,14900,2,
14771,0,14901,2,
14769,0,14902,2,
14772,0,14903,2,
14773,0,14904,2,
14782,0,14905,2,
286,14759,14906,0,
14776,0,14907,2,
14774,13878,14908,0,
14777,0,14909,2,
14775,13952,14910,0,
204,14759,14911,0,
14779,0,14912,2,
14778,0,14913,2,
406,14763,14914,0,
14780,0,14915,2,
204,14763,14916,0,
14781,0,14917,2,
14782,267,14918,0,
14783,0,14919,2,
14782,204,14920,0,
267,14763,14921,0,
406,14759,14922,0,
670,14759,14923,0,
14784,0,14924,2,
386,14763,14925,0,
14785,0,14926,2,
14782,286,14927,0,
14699,14861,14928,1,
14787,14452,14929,0,
14788,0,14930,2,
14087,14789,14931,0,
372,14759,14932,0,
14792,0,14933,2,
14791,0,14934,2,
14790,0,14935,2,
14794,13896,14936,0,
14793,0,14937,2,
14715,14795,14938,0,
286,14763,14939,0,
14782,386,14940,0,
284,14759,14941,0,
14782,406,14942,0,
14796,0,14943,2,
14800,0,14944,2,
14799,0,14945,2,
14797,0,14946,2,
14801,0,14947,2,
14798,0,14948,2,
14803,0,14949,2,
14802,13898,14950,0,
14806,0,14951,2,
14804,0,14952,2,
14805,0,14953,2,
658,14759,14954,0,
14810,0,14955,2,
14807,13900,14956,0,
14809,0,14957,2,
14808,0,14958,2,
926,14759,14959,0,
14812,0,14960,2,
14813,0,14961,2,
284,14763,14962,0,
656,14759,14963,0,
14782,284,14964,0,
285,14763,14965,0,
14816,0,14966,2,
14815,0,14967,2,
14814,13904,14968,0,
14818,0,14969,2,
14819,0,14970,2,
377,14759,14971,0,
14820,0,14972,2,
14817,0,14973,2,
14672,14823,14974,0,
14821,0,14975,2,
14822,0,14976,2,
14782,654,14977,0,
656,14763,14978,0,
368,14759,14979,0,
658,14763,14980,0,
1569,14759,14981,0,
14782,285,14982,0,
1629,14759,14983,0,
1569,14763,14984,0,
661,14759,14985,0,
926,14763,14986,0,
14782,658,14987,0,
377,14763,14988,0,
14824,0,14989,2,
14825,0,14990,2,
14830,0,14991,2,
14827,0,14992,2,
14828,0,14993,2,
14782,377,14994,0,
14826,0,14995,2,
14829,0,14996,2,
14782,656,14997,0,
14782,1569,14998,0,
14832,0,14999,2,
661,14763,15000,0,
14835,0,15001,2,
14833,0,15002,2,
14834,0,15003,2,
381,14759,15004,0,
1629,14763,15005,0,
14837,0,15006,2,
14838,0,15007,2,
14839,0,15008,2,
14782,372,15009,0,
371,14763,15010,0,
5862,14842,15011,1,
14841,0,15012,2,
285,14759,15013,0,
265,14759,15014,0,
14843,14844,15015,0,
14848,0,15016,2,
14849,0,15017,2,
367,14763,15018,0,
14782,368,15019,0,
654,14763,15020,0,
14847,0,15021,2,
14846,0,15022,2,
368,14763,15023,0,
654,14759,15024,0,
14850,0,15025,2,
14782,367,15026,0,
14851,0,15027,2,
382,14759,15028,0,
381,14763,15029,0,
367,14759,15030,0,
655,14763,15031,0,
14854,0,15032,2,
14853,0,15033,2,
14782,371,15034,0,
14852,0,15035,2,
372,14763,15036,0,
371,14759,15037,0,
655,14759,15038,0,
14858,0,15039,2,
14857,0,15040,2,
14856,0,15041,2,
14859,0,15042,2,
14782,655,15043,0,
14860,0,15044,2,
670,14763,15045,0,
14782,670,15046,0,
14862,0,15047,2,
14702,14763,15048,0,
14863,0,15049,2,
123,15046,15050,1,
14865,0,15051,2,
14866,0,15052,2,
14867,0,15053,2,
14431,14868,15054,0,
14502,14863,15055,1,
14871,0,15056,2,
14435,14870,15057,1,
14680,14865,15058,0,
14872,0,15059,2,
14873,0,15060,2,
14875,0,15061,2,
14877,14495,15062,0,
14878,14622,15063,0,
14876,0,15064,2,
14880,14443,15065,0,
14442,14879,15066,0,
14379,14882,15067,0,
14884,0,15068,2,
14887,0,15069,2,
14889,0,15070,2,
14888,14629,15071,0,
14892,14891,15072,0,
15048,0,15073,2,
14894,0,15074,2,
14896,14633,15075,0,
14893,14895,15076,0,
14900,14899,15077,0,
14898,0,15078,2,
14709,14905,15079,0,
14906,0,15080,2,
13956,14904,15081,0,
14910,0,15082,2,
14447,14908,15083,0,
14912,14913,15084,0,
14911,0,15085,2,
14916,0,15086,2,
14918,0,15087,2,
14914,0,15088,2,
14922,0,15089,2,
14921,0,15090,2,
14920,0,15091,2,
14923,0,15092,2,
14925,0,15093,2,
159,15043,15094,1,
14897,0,15095,2,
14864,0,15096,2,
14466,14956,15097,0,
14927,0,15098,2,
14089,14931,15099,1,
14929,0,15100,2,
14931,0,15101,2,
14932,0,15102,2,
14933,14934,15103,0,
14459,14936,15104,0,
14938,0,15105,2,
14940,0,15106,2,
14939,0,15107,2,
14941,0,15108,2,
14942,0,15109,2,
14944,14945,15110,0,
14463,14950,15111,0,
14949,14649,15112,0,
14718,14938,15113,1,
14952,14953,15114,0,
13799,14951,15115,0,
14954,0,15116,2,
14955,14652,15117,0,
14959,0,15118,2,
14963,0,15119,2,
14962,0,15120,2,
14964,0,15121,2,
14965,0,15122,2,
14468,14968,15123,0,
14967,14966,15124,0,
14972,14656,15125,0,
14971,0,15126,2,
14974,0,15127,2,
157,14977,15128,1,
14978,0,15129,2,
14980,0,15130,2,
14981,0,15131,2,
14982,0,15132,2,
14979,0,15133,2,
14983,0,15134,2,
14986,0,15135,2,
14985,0,15136,2,
14984,0,15137,2,
14987,0,15138,2,
14988,0,15139,2,
158,14997,15140,1,
14994,0,15141,2,
15000,0,15142,2,
136,14998,15143,1,
15001,14661,15144,0,
15002,15003,15145,0,
15004,0,15146,2,
15005,0,15147,2,
15008,14664,15148,0,
15009,0,15149,2,
15010,0,15150,2,
15011,14734,15151,1,
15014,0,15152,2,
15013,0,15153,2,
15018,0,15154,2,
15019,0,15155,2,
15020,0,15156,2,
15024,0,15157,2,
15023,0,15158,2,
15026,0,15159,2,
15031,0,15160,2,
15030,0,15161,2,
15015,0,15162,2,
15029,0,15163,2,
15028,0,15164,2,
15034,0,15165,2,
15011,14855,15166,0,
15038,0,15167,2,
15037,0,15168,2,
14753,14886,15169,0,
15036,0,15170,2,
15045,0,15171,2,
15044,14176,15172,0,
14502,15049,15173,0,
14680,15051,15174,1,
14740,15052,15175,0,
14432,15053,15176,0,
148,15054,15177,1,
15055,0,15178,2,
15057,0,15179,2,
14370,15056,15180,0,
14685,15053,15181,0,
15058,0,15182,2,
15059,14300,15183,0,
14550,15061,15184,0,
14549,15061,15185,0,
14611,15052,15186,0,
14881,15064,15187,0,
15062,0,15188,2,
15172,14282,15189,1,
162,15065,15190,1,
159,15066,15191,1,
14497,15067,15192,1,
15067,0,15193,2,
15068,15070,15194,0,
15169,14928,15195,0,
14903,15078,15196,0,
15080,14907,15197,0,
14146,15081,15198,1,
157,15083,15199,1,
15085,14915,15200,0,
15086,15087,15201,0,
14924,15090,15202,0,
14926,15093,15203,0,
13690,15115,15204,1,
15094,0,15205,2,
14930,15100,15206,0,
15081,0,15207,2,
14156,15101,15208,0,
14935,15102,15209,0,
136,15104,15210,1,
14718,15105,15211,0,
15107,15106,15212,0,
124,15109,15213,0,
14948,15108,15214,0,
140,15111,15215,1,
15115,0,15216,2,
15113,0,15217,2,
14957,15116,15218,0,
14960,15118,15219,0,
15122,15121,15220,0,
14969,15120,15221,0,
15124,14657,15222,0,
158,15123,15223,1,
15126,14976,15224,0,
15128,0,15225,2,
14990,15133,15226,0,
14989,15130,15227,0,
15136,14993,15228,0,
14995,15135,15229,0,
15139,15138,15230,0,
15140,0,15231,2,
15143,0,15232,2,
15007,15146,15233,0,
15150,15149,15234,0,
15151,15015,15235,1,
15153,15022,15236,0,
15152,15016,15237,0,
15154,15155,15238,0,
15027,15158,15239,0,
15151,0,15240,2,
15161,15033,15241,0,
15035,15163,15242,0,
15166,0,15243,2,
15168,15039,15244,0,
15169,0,15245,2,
15041,15170,15246,0,
15095,15073,15247,0,
15096,14886,15248,0,
15079,0,15249,2,
15173,0,15250,2,
15248,14928,15251,0,
15174,0,15252,2,
15175,0,15253,2,
15176,0,15254,2,
15177,0,15255,2,
283,15178,15256,0,
15181,0,15257,2,
15180,0,15258,2,
15179,14745,15259,0,
14544,15183,15260,1,
384,15178,15261,0,
15185,0,15262,2,
373,15178,15263,0,
15186,0,15264,2,
15187,0,15265,2,
14758,15187,15266,1,
15191,0,15267,2,
15190,0,15268,2,
15189,14760,15269,0,
15189,0,15270,2,
15192,14499,15271,1,
14557,15193,15272,0,
15194,0,15273,2,
14757,15190,15274,0,
15192,14446,15275,0,
15195,0,15276,2,
15198,14255,15277,1,
15199,0,15278,2,
14146,15207,15279,0,
15206,0,15280,2,
15198,0,15281,2,
369,15178,15282,0,
912,15178,15283,0,
15208,0,15284,2,
15209,14937,15285,0,
927,15178,15286,0,
15211,0,15287,2,
15097,15204,15288,1,
380,15178,15289,0,
15204,0,15290,2,
13690,15216,15291,0,
14811,15217,15292,1,
14811,15217,15293,0,
375,15178,15294,0,
15223,0,15295,2,
15226,14991,15296,0,
15206,15099,15297,1,
15240,15162,15298,0,
15243,15040,15299,0,
15245,15068,15300,0,
15247,0,15301,2,
15194,15073,15302,0,
14669,15250,15303,0,
15252,14869,15304,0,
15254,14683,15305,1,
14683,15254,15306,0,
15256,0,15307,2,
14687,15258,15308,0,
15259,15257,15309,0,
15260,14874,15310,1,
15261,0,15311,2,
15260,14746,15312,0,
15262,15188,15313,0,
15263,0,15314,2,
14758,15265,15315,0,
15264,14607,15316,0,
15264,14678,15317,1,
15266,15267,15318,1,
15269,0,15319,2,
15268,14885,15320,0,
15266,0,15321,2,
14890,15270,15322,0,
15271,0,15323,2,
15272,0,15324,2,
14897,15273,15325,0,
15274,0,15326,2,
15275,0,15327,2,
15276,15073,15328,0,
15279,0,15329,2,
15280,15099,15330,0,
15281,14205,15331,0,
15282,0,15332,2,
15283,0,15333,2,
15286,0,15334,2,
14947,15287,15335,0,
15288,0,15336,2,
15291,0,15337,2,
15097,15290,15338,0,
15289,0,15339,2,
15293,0,15340,2,
15294,0,15341,2,
15297,0,15342,2,
15298,0,15343,2,
15249,15301,15344,0,
15303,0,15345,2,
15304,15253,15346,0,
15306,0,15347,2,
15305,15255,15348,1,
14786,15303,15349,1,
15307,14134,15350,0,
15309,0,15351,2,
15308,0,15352,2,
15305,15177,15353,0,
15310,0,15354,2,
14696,15311,15355,0,
15312,0,15356,2,
15314,14142,15357,0,
15316,0,15358,2,
15315,0,15359,2,
15317,0,15360,2,
15320,0,15361,2,
15321,15191,15362,0,
15322,0,15363,2,
14562,15324,15364,0,
15325,0,15365,2,
14217,15329,15366,0,
15330,0,15367,2,
15331,0,15368,2,
15332,14159,15369,0,
15333,14160,15370,0,
15334,14162,15371,0,
15335,0,15372,2,
14268,15335,15373,1,
13902,15337,15374,0,
15339,14166,15375,0,
15338,0,15376,2,
15341,14170,15377,0,
14836,15342,15378,1,
14836,15342,15379,0,
14786,15345,15380,0,
15346,0,15381,2,
15348,0,15382,2,
15349,0,15383,2,
15347,14615,15384,0,
14691,15350,15385,0,
15353,0,15386,2,
15060,15351,15387,0,
14749,15352,15388,0,
162,15355,15389,1,
14703,15357,15390,0,
15358,14677,15391,0,
15069,15359,15392,0,
15362,0,15393,2,
14770,15364,15394,1,
15328,15365,15395,0,
15364,0,15396,2,
14726,15375,15397,0,
14392,15366,15398,1,
15284,15367,15399,0,
14717,15369,15400,0,
14716,15370,15401,0,
14723,15371,15402,0,
15373,15215,15403,1,
14330,15372,15404,0,
15373,15215,15405,0,
15366,0,15406,2,
15374,0,15407,2,
14728,15377,15408,0,
15378,0,15409,2,
15379,0,15410,2,
15380,0,15411,2,
15182,15381,15412,0,
15057,15384,15413,1,
283,15383,15414,0,
148,15385,15415,1,
15387,0,15416,2,
15388,0,15417,2,
384,15383,15418,0,
15310,15387,15419,1,
15389,0,15420,2,
159,15390,15421,1,
373,15383,15422,0,
15392,0,15423,2,
15271,15392,15424,1,
15174,15391,15425,1,
15389,15360,15426,0,
15394,14901,15427,1,
14770,15396,15428,0,
15394,0,15429,2,
15398,14508,15430,1,
15399,0,15431,2,
136,15401,15432,1,
157,15400,15433,1,
14458,15399,15434,1,
912,15383,15435,0,
140,15402,15436,1,
927,15383,15437,0,
15404,0,15438,2,
15398,14456,15439,0,
14465,15406,15440,0,
15405,0,15441,2,
15397,14016,15442,1,
15397,14016,15443,0,
380,15383,15444,0,
158,15408,15445,1,
375,15383,15446,0,
369,15383,15447,0,
15047,15411,15448,0,
15412,0,15449,2,
15414,0,15450,2,
15413,0,15451,2,
15354,15416,15452,0,
15184,15417,15453,0,
15415,15413,15454,0,
15418,0,15455,2,
15420,15317,15456,0,
15421,0,15457,2,
15422,0,15458,2,
15323,15423,15459,0,
15426,0,15460,2,
15425,0,15461,2,
15424,15421,15462,0,
15348,15412,15463,1,
15428,0,15464,2,
15429,14771,15465,0,
14510,15431,15466,0,
15434,15210,15467,1,
15434,15210,15468,0,
15432,0,15469,2,
15435,0,15470,2,
15436,0,15471,2,
15437,0,15472,2,
14721,15432,15473,0,
14333,15438,15474,0,
15439,0,15475,2,
15440,0,15476,2,
14515,15436,15477,0,
15442,15374,15478,1,
15442,15407,15479,0,
15444,0,15480,2,
15443,0,15481,2,
15445,0,15482,2,
15446,0,15483,2,
14831,15445,15484,0,
15430,0,15485,2,
15447,0,15486,2,
15448,0,15487,2,
15382,15449,15488,0,
15415,15451,15489,1,
15450,14375,15490,0,
15452,0,15491,2,
15453,0,15492,2,
14864,15448,15493,1,
15454,0,15494,2,
14381,15455,15495,0,
15456,0,15496,2,
15424,15457,15497,1,
15458,14382,15498,0,
15326,15460,15499,0,
15459,0,15500,2,
15463,0,15501,2,
15462,0,15502,2,
15082,15464,15503,0,
15465,0,15504,2,
15466,0,15505,2,
15468,0,15506,2,
14721,15469,15507,1,
15470,14402,15508,0,
15473,0,15509,2,
15472,14404,15510,0,
14464,15471,15511,1,
15474,0,15512,2,
15476,15475,15513,0,
15477,0,15514,2,
15478,0,15515,2,
15479,0,15516,2,
15480,14411,15517,0,
14831,15482,15518,1,
15483,14413,15519,0,
15484,0,15520,2,
15486,14417,15521,0,
15251,15487,15522,0,
15488,0,15523,2,
15489,0,15524,2,
15096,15487,15525,0,
15063,15490,15526,0,
283,15493,15527,0,
15313,15492,15528,0,
15356,15491,15529,0,
15071,15495,15530,0,
384,15493,15531,0,
15496,15361,15532,0,
14897,15487,15533,0,
15497,0,15534,2,
15075,15498,15535,0,
15327,15500,15536,0,
373,15493,15537,0,
15277,15503,15538,1,
15125,15517,15539,0,
15503,0,15540,2,
375,15493,15541,0,
912,15493,15542,0,
14513,15505,15543,0,
927,15493,15544,0,
15112,15508,15545,0,
15507,0,15546,2,
15117,15510,15547,0,
15511,15474,15548,1,
15511,15512,15549,0,
15513,0,15550,2,
369,15493,15551,0,
15481,15516,15552,0,
380,15493,15553,0,
15518,0,15554,2,
15144,15519,15555,0,
15148,15521,15556,0,
14517,15513,15557,1,
15248,15487,15558,0,
15522,0,15559,2,
15386,15523,15560,0,
148,15526,15561,1,
15525,0,15562,2,
15529,0,15563,2,
15527,0,15564,2,
15528,0,15565,2,
162,15530,15566,1,
15531,0,15567,2,
15532,0,15568,2,
15318,15529,15569,1,
15533,15251,15570,0,
159,15535,15571,1,
15427,15536,15572,1,
15536,0,15573,2,
15537,0,15574,2,
15538,15278,15575,1,
15277,15540,15576,0,
15541,0,15577,2,
15538,0,15578,2,
15542,0,15579,2,
15507,15543,15580,1,
15544,0,15581,2,
15543,0,15582,2,
136,15545,15583,1,
140,15547,15584,1,
15548,0,15585,2,
15549,0,15586,2,
14584,15550,15587,0,
15551,0,15588,2,
15539,14256,15589,1,
15552,0,15590,2,
15539,14256,15591,0,
15553,0,15592,2,
158,15555,15593,1,
157,15556,15594,1,
15557,14845,15595,1,
15557,14845,15596,0,
15558,0,15597,2,
15302,15559,15598,0,
15594,15595,15599,1,
15560,0,15600,2,
15561,0,15601,2,
15562,14883,15602,0,
15318,15563,15603,0,
15319,15565,15604,0,
15564,14630,15605,0,
15419,15561,15606,0,
14634,15567,15607,0,
15566,0,15608,2,
15568,15460,15609,0,
15194,15559,15610,0,
15570,0,15611,2,
15569,0,15612,2,
15489,15560,15613,1,
15571,0,15614,2,
15566,15425,15615,0,
15427,15573,15616,0,
15574,14636,15617,0,
15572,0,15618,2,
15300,15597,15619,0,
15576,0,15620,2,
15577,14641,15621,0,
15578,15199,15622,0,
15579,14647,15623,0,
15581,14651,15624,0,
15546,15582,15625,0,
15583,0,15626,2,
15292,15583,15627,0,
15584,0,15628,2,
15514,15586,15629,0,
15587,0,15630,2,
14973,15584,15631,0,
15222,15588,15632,0,
15589,15552,15633,1,
15589,15590,15634,0,
15591,0,15635,2,
15592,14662,15636,0,
15593,15409,15637,1,
15593,15378,15638,0,
15594,15595,15639,0,
15596,0,15640,2,
15598,0,15641,2,
15524,15600,15642,0,
14886,15602,15643,1,
15419,15601,15644,1,
15072,15605,15645,0,
15603,0,15646,2,
15604,0,15647,2,
14928,15619,15648,1,
15606,0,15649,2,
15076,15607,15650,0,
15608,15461,15651,0,
15609,0,15652,2,
15610,15276,15653,0,
15395,15611,15654,0,
15615,0,15655,2,
15613,0,15656,2,
15572,15614,15657,1,
15616,0,15658,2,
15084,15617,15659,0,
15618,15571,15660,0,
15145,15636,15661,0,
15368,15620,15662,0,
15103,15621,15663,0,
15622,0,15664,2,
15110,15623,15665,0,
15114,15624,15666,0,
15625,0,15667,2,
15292,15626,15668,1,
15627,0,15669,2,
14817,15628,15670,1,
15629,0,15671,2,
14658,15630,15672,0,
15631,0,15673,2,
15633,0,15674,2,
157,15632,15675,1,
15635,14412,15676,0,
15634,0,15677,2,
15637,0,15678,2,
15638,0,15679,2,
15639,0,15680,2,
15344,15641,15681,0,
15642,0,15682,2,
15643,0,15683,2,
15644,0,15684,2,
15393,15646,15685,0,
148,15645,15686,1,
15363,15647,15687,0,
15648,0,15688,2,
15651,0,15689,2,
162,15650,15690,1,
14897,15653,15691,1,
15079,15654,15692,1,
15504,15658,15693,0,
159,15659,15694,1,
15660,0,15695,2,
15430,15662,15696,1,
158,15663,15697,1,
136,15665,15698,1,
140,15666,15699,1,
15509,15667,15700,0,
15668,0,15701,2,
15340,15669,15702,0,
15670,15629,15703,1,
15670,15671,15704,0,
14590,15672,15705,1,
15672,0,15706,2,
15127,15673,15707,0,
15661,14448,15708,1,
15676,0,15709,2,
15661,14448,15710,0,
15662,0,15711,2,
15410,15679,15712,0,
15675,0,15713,2,
15640,15680,15714,0,
15681,0,15715,2,
15494,15682,15716,0,
283,15683,15717,0,
384,15683,15718,0,
15685,0,15719,2,
15687,0,15720,2,
15686,0,15721,2,
283,15688,15722,0,
15690,15463,15723,0,
15612,15686,15724,0,
15689,15652,15725,0,
384,15688,15726,0,
15690,15501,15727,1,
15497,15685,15728,1,
15691,0,15729,2,
15692,384,15730,0,
15694,0,15731,2,
15575,15693,15732,1,
15693,0,15733,2,
373,15683,15734,0,
15692,283,15735,0,
15696,0,15736,2,
375,15683,15737,0,
15697,15467,15738,0,
912,15683,15739,0,
15698,15403,15740,0,
927,15683,15741,0,
15699,15336,15742,0,
15668,15700,15743,1,
15700,0,15744,2,
15698,15403,15745,1,
15692,375,15746,0,
912,15688,15747,0,
15703,0,15748,2,
15702,0,15749,2,
14590,15706,15750,0,
15705,0,15751,2,
15704,0,15752,2,
15699,15336,15753,1,
15705,15295,15754,1,
927,15688,15755,0,
15692,912,15756,0,
369,15683,15757,0,
15707,0,15758,2,
15692,927,15759,0,
15708,15676,15760,1,
15708,15709,15761,0,
380,15683,15762,0,
15710,0,15763,2,
15485,15711,15764,0,
15692,373,15765,0,
15433,15696,15766,0,
15697,15467,15767,1,
375,15688,15768,0,
380,15688,15769,0,
15712,0,15770,2,
15692,369,15771,0,
369,15688,15772,0,
15714,0,15773,2,
373,15688,15774,0,
15715,14905,15775,0,
15716,0,15776,2,
15717,0,15777,2,
15718,0,15778,2,
15499,15720,15779,0,
15534,15719,15780,0,
15569,15721,15781,1,
15722,0,15782,2,
15724,0,15783,2,
15723,0,15784,2,
15726,0,15785,2,
15730,0,15786,2,
384,15729,15787,0,
283,15729,15788,0,
15732,15731,15789,1,
15644,15716,15790,1,
15727,0,15791,2,
15575,15733,15792,0,
15734,0,15793,2,
15732,0,15794,2,
15433,15736,15795,1,
15735,0,15796,2,
15738,0,15797,2,
15737,0,15798,2,
15739,0,15799,2,
15740,0,15800,2,
15741,0,15801,2,
15742,0,15802,2,
15701,15744,15803,0,
375,15729,15804,0,
15745,15702,15805,1,
15746,0,15806,2,
15747,0,15807,2,
15745,15749,15808,0,
912,15729,15809,0,
15753,15707,15810,1,
927,15729,15811,0,
15751,15223,15812,0,
15754,15675,15813,0,
15750,0,15814,2,
15756,0,15815,2,
15755,0,15816,2,
15753,15758,15817,0,
15759,0,15818,2,
15757,0,15819,2,
15760,0,15820,2,
15761,0,15821,2,
15762,0,15822,2,
15763,14597,15823,0,
15765,0,15824,2,
15764,0,15825,2,
15766,0,15826,2,
15767,15712,15827,1,
15769,0,15828,2,
15768,0,15829,2,
369,15729,15830,0,
15771,0,15831,2,
15767,15770,15832,0,
380,15729,15833,0,
15754,15713,15834,1,
15772,0,15835,2,
373,15729,15836,0,
15774,0,15837,2,
15775,0,15838,2,
15825,15826,15839,0,
15684,15776,15840,0,
15777,15074,15841,0,
14902,15778,15842,0,
15780,0,15843,2,
15779,0,15844,2,
15782,14909,15845,0,
15727,15784,15846,0,
15655,15784,15847,0,
14917,15785,15848,0,
15786,14919,15849,0,
15787,0,15850,2,
15788,0,15851,2,
15792,0,15852,2,
15285,15793,15853,0,
15794,15694,15854,0,
14943,15796,15855,0,
15506,15797,15856,0,
15798,14946,15857,0,
15799,14958,15858,0,
15441,15800,15859,0,
15801,14961,15860,0,
15802,15376,15861,0,
15803,0,15862,2,
15804,0,15863,2,
15805,0,15864,2,
14970,15806,15865,0,
15807,14975,15866,0,
15808,0,15867,2,
15809,0,15868,2,
15810,0,15869,2,
14729,15814,15870,0,
15812,0,15871,2,
15813,0,15872,2,
15811,0,15873,2,
15816,14992,15874,0,
14996,15815,15875,0,
15296,15819,15876,0,
14999,15818,15877,0,
15817,0,15878,2,
15822,15006,15879,0,
14731,15823,15880,1,
15823,0,15881,2,
15012,15824,15882,0,
15827,0,15883,2,
15829,15021,15884,0,
15830,0,15885,2,
15828,15017,15886,0,
15025,15831,15887,0,
15832,0,15888,2,
15834,0,15889,2,
15833,0,15890,2,
15834,15714,15891,1,
15835,15032,15892,0,
15836,0,15893,2,
15837,15042,15894,0,
15795,0,15895,2,
283,15838,15896,0,
15840,0,15897,2,
15841,15077,15898,0,
15196,15842,15899,0,
15502,15843,15900,0,
15725,15844,15901,0,
384,15838,15902,0,
15845,15197,15903,0,
15846,0,15904,2,
15200,15848,15905,0,
15201,15849,15906,0,
15089,15850,15907,0,
15851,15092,15908,0,
15478,15861,15909,1,
159,15853,15910,1,
15664,15852,15911,0,
15854,0,15912,2,
15212,15855,15913,0,
15580,15856,15914,1,
15214,15857,15915,0,
15856,0,15916,2,
15218,15858,15917,0,
15548,15859,15918,1,
15859,0,15919,2,
15219,15860,15920,0,
15861,0,15921,2,
15863,15119,15922,0,
15220,15865,15923,0,
375,15838,15924,0,
15224,15866,15925,0,
912,15838,15926,0,
15868,15131,15927,0,
15518,15870,15928,1,
15873,15134,15929,0,
15871,15872,15930,0,
15228,15874,15931,0,
15230,15875,15932,0,
157,15876,15933,1,
15870,0,15934,2,
15877,15142,15935,0,
927,15838,15936,0,
15233,15879,15937,0,
14840,15881,15938,0,
369,15838,15939,0,
15234,15882,15940,0,
15839,0,15941,2,
15237,15886,15942,0,
15839,15599,15943,1,
15885,15157,15944,0,
373,15838,15945,0,
15236,15884,15946,0,
15238,15887,15947,0,
15889,15773,15948,0,
15890,15164,15949,0,
15241,15892,15950,0,
15893,15167,15951,0,
15244,15894,15952,0,
15896,0,15953,2,
15649,15897,15954,0,
148,15898,15955,1,
162,15899,15956,1,
15657,15900,15957,1,
15901,0,15958,2,
148,15903,15959,1,
15900,0,15960,2,
15902,0,15961,2,
162,15905,15962,1,
162,15906,15963,1,
15202,15907,15964,0,
15203,15908,15965,0,
157,15950,15966,1,
159,15952,15967,1,
140,15931,15968,1,
140,15920,15969,1,
15948,0,15970,2,
15795,15911,15971,1,
15910,0,15972,2,
148,15913,15973,1,
158,15915,15974,1,
15914,0,15975,2,
15580,15916,15976,0,
136,15917,15977,1,
15585,15919,15978,0,
15515,15921,15979,0,
15221,15922,15980,0,
158,15923,15981,1,
15918,0,15982,2,
15924,0,15983,2,
136,15925,15984,1,
15926,0,15985,2,
15227,15927,15986,0,
15229,15929,15987,0,
15928,15930,15988,1,
15930,0,15989,2,
15937,15880,15990,1,
136,15932,15991,1,
140,15935,15992,1,
15554,15934,15993,0,
15936,0,15994,2,
15937,15880,15995,0,
15938,0,15996,2,
15939,0,15997,2,
159,15940,15998,1,
15599,15941,15999,0,
15933,0,16000,2,
158,15946,16001,1,
15239,15944,16002,0,
15945,0,16003,2,
15943,0,16004,2,
157,15947,16005,1,
15242,15949,16006,0,
15911,0,16007,2,
15246,15951,16008,0,
15171,15953,16009,0,
159,16008,16010,1,
158,15980,16011,1,
136,15986,16012,1,
15954,0,16013,2,
15955,0,16014,2,
15956,15656,16015,1,
15847,15958,16016,0,
15957,0,16017,2,
15088,15961,16018,0,
15728,15955,16019,0,
15657,15960,16020,0,
15956,15613,16021,0,
15962,0,16022,2,
15655,15958,16023,0,
162,15964,16024,1,
148,15965,16025,1,
15781,15954,16026,1,
15790,15962,16027,0,
157,16002,16028,1,
15999,0,16029,2,
15971,15972,16030,1,
15974,15975,16031,0,
15976,0,16032,2,
15977,15918,16033,0,
15978,0,16034,2,
15909,15969,16035,0,
15979,0,16036,2,
15129,15983,16037,0,
15981,0,16038,2,
15977,15982,16039,1,
15137,15985,16040,0,
15988,0,16041,2,
140,15987,16042,1,
15909,15969,16043,1,
15990,0,16044,2,
15928,15989,16045,0,
15993,0,16046,2,
15147,15994,16047,0,
15992,15990,16048,0,
15995,0,16049,2,
15156,15997,16050,0,
15998,0,16051,2,
15988,16000,16052,1,
15974,15975,16053,1,
15160,16003,16054,0,
14697,16006,16055,1,
15895,16007,16056,0,
15971,15910,16057,0,
15967,0,16058,2,
16009,15098,16059,0,
16057,0,16060,2,
15781,16013,16061,0,
15728,16014,16062,1,
16015,0,16063,2,
16016,0,16064,2,
15959,16017,16065,1,
16018,15091,16066,0,
16019,0,16067,2,
16020,0,16068,2,
16021,0,16069,2,
15959,16017,16070,0,
16023,0,16071,2,
15790,16022,16072,1,
16024,0,16073,2,
16026,0,16074,2,
16027,0,16075,2,
16056,0,16076,2,
16030,0,16077,2,
16031,0,16078,2,
16033,0,16079,2,
16035,0,16080,2,
16037,15132,16081,0,
16039,0,16082,2,
16039,16038,16083,1,
16040,15141,16084,0,
15991,16043,16085,1,
16041,15933,16086,0,
15991,16043,16087,0,
16045,0,16088,2,
15992,16044,16089,1,
15520,16046,16090,0,
16048,0,16091,2,
140,16047,16092,1,
16049,15996,16093,0,
15943,16029,16094,0,
16052,16051,16095,1,
16050,15159,16096,0,
16053,16005,16097,1,
16054,15165,16098,0,
16052,15998,16099,0,
16053,16005,16100,0,
16055,15299,16101,1,
16010,0,16102,2,
148,16059,16103,1,
16076,16029,16104,0,
16061,0,16105,2,
16062,0,16106,2,
16063,15904,16107,0,
16019,16065,16108,0,
162,16066,16109,1,
15695,16068,16110,0,
16070,0,16111,2,
15791,16071,16112,0,
16072,0,16113,2,
16026,16073,16114,1,
16074,16024,16115,0,
16071,15791,16116,1,
16032,16078,16117,0,
16034,16079,16118,0,
16036,16080,16119,0,
158,16081,16120,1,
16082,15981,16121,0,
136,16084,16122,1,
16086,0,16123,2,
16089,0,16124,2,
16087,0,16125,2,
16090,0,16126,2,
15637,16090,16127,1,
15235,16093,16128,1,
16076,16060,16129,0,
16093,0,16130,2,
16095,0,16131,2,
157,16096,16132,1,
16094,0,16133,2,
159,16098,16134,1,
16099,0,16135,2,
16100,0,16136,2,
16103,0,16137,2,
15783,16105,16138,0,
16107,16064,16139,0,
16108,0,16140,2,
15789,16110,16141,1,
16109,0,16142,2,
16112,0,16143,2,
16027,16114,16144,0,
16113,16114,16145,0,
16115,0,16146,2,
16104,16060,16147,0,
15633,16119,16148,1,
16110,0,16149,2,
16117,0,16150,2,
16118,0,16151,2,
16119,0,16152,2,
15703,16118,16153,1,
16121,0,16154,2,
16120,0,16155,2,
16088,16123,16156,0,
15942,16128,16157,1,
15678,16126,16158,0,
15743,16117,16159,1,
16128,0,16160,2,
16129,0,16161,2,
15235,16130,16162,0,
15948,16131,16163,0,
15891,16133,16164,0,
16132,0,16165,2,
16134,0,16166,2,
16138,0,16167,2,
16062,16138,16168,1,
16139,0,16169,2,
16141,0,16170,2,
16143,15784,16171,0,
16144,0,16172,2,
15789,16149,16173,0,
15743,16150,16174,0,
15748,16151,16175,0,
15674,16152,16176,0,
16153,0,16177,2,
15984,16153,16178,0,
15968,16148,16179,1,
15968,16148,16180,0,
16156,0,16181,2,
16157,0,16182,2,
16158,0,16183,2,
15942,16160,16184,0,
16159,0,16185,2,
16147,0,16186,2,
16004,16161,16187,0,
16162,0,16188,2,
16156,16127,16189,1,
16163,0,16190,2,
16161,16004,16191,1,
16191,16058,16192,1,
16191,15967,16193,0,
16164,16186,16194,0,
16106,16167,16195,0,
16168,0,16196,2,
16069,16169,16197,0,
15963,16168,16198,0,
16025,16170,16199,1,
16025,16170,16200,0,
16015,16171,16201,1,
16172,16146,16202,0,
16173,0,16203,2,
16174,0,16204,2,
16175,0,16205,2,
15984,16177,16206,1,
16176,0,16207,2,
16178,0,16208,2,
16122,16179,16209,0,
16180,0,16210,2,
16122,16179,16211,1,
16181,16127,16212,0,
16092,16182,16213,1,
16092,16182,16214,0,
16001,16185,16215,1,
16184,0,16216,2,
16131,16186,16217,0,
16001,16185,16218,0,
15343,16188,16219,0,
16187,0,16220,2,
16189,0,16221,2,
16135,16190,16222,0,
16192,16137,16223,1,
16193,0,16224,2,
16195,0,16225,2,
16195,16065,16226,0,
15963,16196,16227,1,
16197,0,16228,2,
16198,0,16229,2,
16200,0,16230,2,
16116,16201,16231,0,
16072,16197,16232,1,
16194,0,16233,2,
16199,0,16234,2,
15912,16203,16235,0,
15862,16204,16236,0,
15752,16205,16237,0,
16206,0,16238,2,
15677,16207,16239,0,
16206,16155,16240,1,
16209,0,16241,2,
16212,0,16242,2,
16214,0,16243,2,
16215,16132,16244,0,
16218,0,16245,2,
16217,16164,16246,0,
16215,16165,16247,1,
16220,16029,16248,0,
15966,16221,16249,1,
16201,0,16250,2,
16192,0,16251,2,
15966,16221,16252,0,
16251,16103,16253,0,
15805,16236,16254,1,
15810,16237,16255,1,
16252,0,16256,2,
16225,16067,16257,0,
16226,0,16258,2,
16227,0,16259,2,
16113,16228,16260,0,
16145,16228,16261,0,
16231,16232,16262,0,
16116,16250,16263,1,
16249,16166,16264,1,
16235,0,16265,2,
16030,16235,16266,1,
16236,0,16267,2,
16232,16231,16268,1,
16237,0,16269,2,
16238,16120,16270,0,
16239,0,16271,2,
15760,16239,16272,1,
16241,16210,16273,0,
16242,16183,16274,0,
16111,16230,16275,0,
16234,16230,16276,0,
16243,16216,16277,0,
16244,0,16278,2,
16249,16134,16279,0,
16246,0,16280,2,
15891,16248,16281,1,
16247,0,16282,2,
16233,15970,16283,0,
16253,0,16284,2,
16281,16102,16285,1,
16281,0,16286,2,
16279,0,16287,2,
16065,16257,16288,1,
16140,16258,16289,0,
16260,0,16290,2,
16261,0,16291,2,
15973,16266,16292,1,
16254,16011,16293,1,
16095,16283,16294,1,
16077,16265,16295,0,
15973,16266,16296,0,
15864,16267,16297,0,
16263,0,16298,2,
16254,16011,16299,0,
15869,16269,16300,0,
16012,16255,16301,1,
16042,16272,16302,1,
15820,16271,16303,0,
16270,0,16304,2,
16012,16255,16305,0,
16042,16272,16306,0,
16273,0,16307,2,
16274,0,16308,2,
16276,0,16309,2,
16245,16278,16310,0,
16264,0,16311,2,
16268,0,16312,2,
16222,16280,16313,0,
16224,16284,16314,0,
16285,15050,16315,1,
16288,16142,16316,1,
16289,16111,16317,0,
16288,0,16318,2,
16290,16075,16319,0,
16202,16291,16320,0,
16310,0,16321,2,
16264,16313,16322,1,
15128,16293,16323,1,
16296,0,16324,2,
16295,0,16325,2,
16312,16263,16326,0,
4014,16298,16327,0,
16297,0,16328,2,
15225,16293,16329,0,
16299,0,16330,2,
16300,0,16331,2,
15231,16301,16332,0,
16305,0,16333,2,
16208,16304,16334,0,
15140,16301,16335,1,
16303,0,16336,2,
15232,16302,16337,0,
16306,0,16338,2,
15143,16302,16339,1,
16275,16289,16340,0,
16308,15883,16341,0,
16292,16309,16342,0,
16308,15883,16343,1,
16313,0,16344,2,
16287,16256,16345,0,
16286,16010,16346,0,
15050,16285,16347,0,
16314,0,16348,2,
16314,16315,16349,1,
16346,0,16350,2,
16347,0,16351,2,
16198,16316,16352,0,
16318,16109,16353,0,
16259,16316,16354,0,
16317,0,16355,2,
16320,0,16356,2,
16114,16319,16357,1,
16227,16320,16358,1,
16323,16310,16359,1,
16323,0,16360,2,
16345,0,16361,2,
16343,0,16362,2,
16325,16324,16363,0,
16326,0,16364,2,
16268,16327,16365,1,
15867,16328,16366,0,
16329,0,16367,2,
15878,16331,16368,0,
16332,0,16369,2,
16335,16334,16370,1,
16337,0,16371,2,
15821,16336,16372,0,
16334,0,16373,2,
16335,0,16374,2,
16339,0,16375,2,
16339,16273,16376,1,
16340,0,16377,2,
16341,0,16378,2,
16343,16028,16379,0,
16344,16311,16380,0,
16315,16348,16381,0,
16360,16321,16382,0,
16349,0,16383,2,
16380,0,16384,2,
16085,16368,16385,1,
16369,16333,16386,0,
16353,0,16387,2,
16354,16356,16388,0,
16355,16199,16389,0,
16352,0,16390,2,
16259,16356,16391,0,
16357,0,16392,2,
16362,16028,16393,1,
16350,16351,16394,0,
16355,16234,16395,1,
16357,16262,16396,1,
16223,16363,16397,1,
4014,16364,16398,0,
16366,0,16399,2,
16365,0,16400,2,
16330,16367,16401,0,
16083,16366,16402,1,
16368,0,16403,2,
16089,16372,16404,1,
16372,0,16405,2,
16371,16338,16406,0,
16374,16373,16407,0,
16375,16307,16408,0,
16363,0,16409,2,
15888,16378,16410,0,
16342,16377,16411,0,
16379,0,16412,2,
16223,16409,16413,0,
16394,16294,16414,1,
16391,0,16415,2,
16389,0,16416,2,
16387,16390,16417,0,
16388,0,16418,2,
15213,16395,16419,1,
16262,16392,16420,0,
16393,15094,16421,1,
16402,16401,16422,1,
16393,0,16423,2,
16382,0,16424,2,
16395,0,16425,2,
16326,16396,16426,0,
16396,16398,16427,1,
16083,16399,16428,0,
16401,0,16429,2,
16402,0,16430,2,
16085,16403,16431,0,
16386,0,16432,2,
16385,0,16433,2,
16404,16406,16434,1,
16124,16405,16435,0,
16407,0,16436,2,
16406,0,16437,2,
16385,16386,16438,0,
16408,0,16439,2,
16385,16386,16440,1,
16397,0,16441,2,
16410,0,16442,2,
16381,0,16443,2,
16394,0,16444,2,
16427,0,16445,2,
16414,0,16446,2,
16415,16229,16447,0,
16417,16418,16448,0,
16416,16230,16449,0,
16419,0,16450,2,
16420,16358,16451,0,
15213,16425,16452,0,
16358,16420,16453,1,
16421,16345,16454,1,
16426,0,16455,2,
16400,16427,16456,0,
16428,0,16457,2,
16430,16429,16458,0,
16431,0,16459,2,
16433,16432,16460,0,
16434,0,16461,2,
16435,0,16462,2,
16404,16437,16463,0,
16438,0,16464,2,
16413,16383,16465,0,
16411,16441,16466,0,
15205,16423,16467,0,
16417,0,16468,2,
16442,16097,16469,0,
16442,16097,16470,1,
16294,16444,16471,0,
16413,0,16472,2,
16421,16361,16473,0,
16381,16446,16474,0,
16383,16446,16475,0,
16316,16447,16476,1,
16449,0,16477,2,
16448,0,16478,2,
16473,0,16479,2,
16453,0,16480,2,
16454,0,16481,2,
4014,16455,16482,0,
16154,16457,16483,0,
16458,0,16484,2,
16125,16459,16485,0,
16460,0,16486,2,
16408,16461,16487,0,
16091,16462,16488,0,
16463,0,16489,2,
16466,16383,16490,0,
16465,0,16491,2,
16467,0,16492,2,
16450,16468,16493,0,
16469,0,16494,2,
16452,0,16495,2,
16354,16450,16496,0,
16466,0,16497,2,
16471,0,16498,2,
16474,0,16499,2,
16497,16472,16500,0,
16477,16292,16501,1,
16478,16450,16502,1,
16476,0,16503,2,
16475,16322,16504,0,
16496,16356,16505,0,
16412,16492,16506,0,
16292,16477,16507,0,
16426,16480,16508,0,
16476,16451,16509,1,
16453,16482,16510,1,
16240,16483,16511,1,
16483,0,16512,2,
16211,16485,16513,1,
16486,16436,16514,0,
16485,0,16515,2,
16213,16488,16516,1,
16487,0,16517,2,
16488,0,16518,2,
16490,0,16519,2,
16491,16443,16520,0,
16136,16494,16521,0,
16454,16479,16522,0,
16493,0,16523,2,
16499,16498,16524,0,
16505,0,16525,2,
16503,16502,16526,0,
16247,16521,16527,0,
16500,16479,16528,0,
16504,16481,16529,0,
16247,16521,16530,1,
16504,0,16531,2,
16452,16501,16532,0,
16501,16450,16533,0,
16507,0,16534,2,
16451,16503,16535,0,
16508,16509,16536,0,
16508,0,16537,2,
16510,0,16538,2,
16511,0,16539,2,
16240,16512,16540,0,
16513,0,16541,2,
16211,16515,16542,0,
16517,16489,16543,0,
16516,0,16544,2,
16213,16518,16545,0,
16520,16519,16546,0,
16501,16441,16547,0,
16523,16495,16548,0,
16470,16506,16549,1,
16521,0,16550,2,
16506,0,16551,2,
16522,0,16552,2,
16524,0,16553,2,
16547,0,16554,2,
16479,16531,16555,0,
16548,16525,16556,0,
16526,16451,16557,0,
16527,0,16558,2,
16547,16383,16559,0,
16533,16478,16560,0,
16532,0,16561,2,
16502,16535,16562,1,
16536,0,16563,2,
4014,16537,16564,0,
16370,16539,16565,0,
16540,16370,16566,0,
16541,16464,16567,0,
16542,16376,16568,0,
16543,0,16569,2,
16544,16461,16570,0,
16545,0,16571,2,
16542,0,16572,2,
16540,0,16573,2,
16282,16550,16574,0,
16549,0,16575,2,
16470,16551,16576,0,
16553,16322,16577,0,
16501,16556,16578,1,
16576,0,16579,2,
16556,16500,16580,0,
16574,0,16581,2,
16359,16558,16582,0,
16560,0,16583,2,
16561,16534,16584,0,
16562,0,16585,2,
4014,16563,16586,0,
16509,16564,16587,1,
16566,0,16588,2,
16567,16376,16589,0,
16568,16461,16590,0,
16544,16569,16591,0,
16568,0,16592,2,
16556,0,16593,2,
16500,16554,16594,0,
16552,16575,16595,0,
16562,16586,16596,1,
16577,0,16597,2,
16580,0,16598,2,
16594,0,16599,2,
16578,0,16600,2,
16579,16581,16601,0,
16582,0,16602,2,
16584,16583,16603,0,
16578,16557,16604,1,
16536,16585,16605,0,
16587,16538,16606,0,
16588,16436,16607,0,
16590,16544,16608,0,
16590,0,16609,2,
16592,16439,16610,0,
16591,0,16611,2,
16587,0,16612,2,
16559,16593,16613,0,
16593,16547,16614,0,
16384,16597,16615,0,
16557,16600,16616,0,
16598,16599,16617,0,
16424,16602,16618,0,
16397,16603,16619,1,
16614,0,16620,2,
16605,16604,16621,0,
16605,0,16622,2,
16596,0,16623,2,
16606,16456,16624,0,
16608,0,16625,2,
16611,16571,16626,0,
16543,16609,16627,0,
16613,0,16628,2,
16601,16424,16629,0,
16615,16555,16630,0,
16617,16475,16631,0,
16615,16620,16632,0,
16619,16616,16633,1,
16620,16500,16634,0,
16616,16619,16635,0,
4014,16622,16636,0,
16618,0,16637,2,
16621,0,16638,2,
16615,0,16639,2,
16617,16504,16640,0,
16546,16628,16641,0,
16630,0,16642,2,
16632,16528,16643,0,
16631,0,16644,2,
16633,0,16645,2,
16634,0,16646,2,
16414,16641,16647,1,
16604,16636,16648,1,
16422,16637,16649,0,
4014,16638,16650,0,
16639,16481,16651,0,
16640,0,16652,2,
16595,16642,16653,0,
16648,0,16654,2,
16529,16646,16655,0,
16643,0,16656,2,
16621,16645,16657,0,
16524,16644,16658,0,
16646,16383,16659,1,
16615,16652,16660,0,
16623,16648,16661,0,
16633,16650,16662,1,
16651,0,16663,2,
16653,16656,16664,0,
16322,16658,16665,1,
16662,0,16666,2,
16635,16659,16667,1,
16657,0,16668,2,
16635,16659,16669,0,
16481,16660,16670,1,
16647,16659,16671,0,
16663,16479,16672,0,
16655,0,16673,2,
16664,0,16674,2,
16671,16635,16675,0,
16667,0,16676,2,
16665,0,16677,2,
16647,16669,16678,1,
4014,16668,16679,0,
16670,0,16680,2,
16672,16673,16681,0,
16674,16579,16682,0,
16601,16674,16683,0,
16675,16665,16684,1,
16678,0,16685,2,
16657,16676,16686,0,
16680,16677,16687,0,
16675,16677,16688,0,
16667,16679,16689,1,
16629,16674,16690,0,
16549,16681,16691,1,
16530,16682,16692,1,
16687,16675,16693,0,
16683,0,16694,2,
16686,16685,16695,0,
16686,0,16696,2,
16670,16688,16697,1,
16689,0,16698,2,
16690,0,16699,2,
16685,16684,16700,0,
16692,0,16701,2,
16700,16686,16702,0,
16694,16558,16703,0,
16699,16637,16704,0,
16695,16684,16705,0,
16695,0,16706,2,
4014,16696,16707,0,
16693,16691,16708,1,
16649,16699,16709,0,
16693,16691,16710,0,
16692,16710,16711,1,
16691,16701,16712,0,
16359,16703,16713,1,
16705,0,16714,2,
16678,16707,16715,1,
4014,16706,16716,0,
16705,16697,16717,0,
16709,0,16718,2,
16708,0,16719,2,
16422,16704,16720,1,
16712,16693,16721,0,
16697,16719,16722,0,
16684,16716,16723,1,
4014,16714,16724,0,
16715,0,16725,2,
16717,0,16726,2,
16484,16718,16727,0,
16720,16713,16728,0,
16722,16702,16729,0,
16721,16713,16730,0,
16728,16721,16731,0,
16511,16727,16732,1,
16713,16721,16733,1,
16697,16724,16734,1,
16698,16725,16735,0,
4014,16726,16736,0,
16723,0,16737,2,
16727,0,16738,2,
16720,16730,16739,1,
16731,16732,16740,0,
16733,0,16741,2,
16734,0,16742,2,
16732,16731,16743,1,
16734,16723,16744,0,
16735,16661,16745,0,
16708,16736,16746,1,
16565,16738,16747,0,
16539,16738,16748,0,
16729,16711,16749,0,
16729,0,16750,2,
16741,16711,16751,0,
16739,0,16752,2,
16749,16741,16753,0,
16745,16624,16754,0,
16747,0,16755,2,
16748,0,16756,2,
16749,0,16757,2,
16746,0,16758,2,
4014,16750,16759,0,
16743,0,16760,2,
16752,16760,16761,0,
16753,0,16762,2,
16711,16759,16763,1,
16751,16729,16764,0,
4014,16757,16765,0,
16755,16588,16766,0,
16607,16755,16767,0,
16753,16752,16768,0,
16573,16756,16769,0,
16761,16764,16770,0,
16440,16767,16771,1,
16733,16765,16772,1,
16758,16763,16773,0,
16763,0,16774,2,
16766,16514,16775,0,
16767,0,16776,2,
16768,0,16777,2,
4014,16762,16778,0,
16370,16769,16779,1,
16779,16740,16780,1,
16779,0,16781,2,
16770,0,16782,2,
16752,16778,16783,1,
16772,0,16784,2,
16771,0,16785,2,
16744,16773,16786,0,
16775,0,16787,2,
16440,16776,16788,0,
4014,16777,16789,0,
16770,16780,16790,0,
16740,16781,16791,0,
4014,16782,16792,0,
16783,0,16793,2,
16743,16789,16794,1,
16784,16783,16795,0,
16589,16787,16796,0,
16461,16787,16797,0,
16788,0,16798,2,
16567,16787,16799,0,
16725,16783,16800,0,
16790,0,16801,2,
16780,16792,16802,1,
16771,16791,16803,1,
16791,16785,16804,0,
16794,0,16805,2,
16796,16570,16806,0,
16796,0,16807,2,
16797,16589,16808,0,
16486,16798,16809,0,
16799,0,16810,2,
16800,16723,16811,0,
4014,16801,16812,0,
16790,16803,16813,0,
16805,16763,16814,0,
16805,16666,16815,0,
16806,0,16816,2,
16610,16807,16817,0,
16808,0,16818,2,
16513,16809,16819,1,
16810,16572,16820,0,
16803,16812,16821,1,
16819,16804,16822,1,
16804,16819,16823,0,
16795,16815,16824,0,
16814,16784,16825,0,
16816,16625,16826,0,
16434,16817,16827,1,
16627,16818,16828,0,
16376,16820,16829,1,
16813,0,16830,2,
16802,16821,16831,0,
16829,0,16832,2,
16516,16828,16833,1,
16829,16823,16834,1,
16786,16824,16835,0,
16811,16825,16836,0,
16826,16626,16837,0,
16825,0,16838,2,
4014,16830,16839,0,
16822,0,16840,2,
16840,16839,16841,1,
16813,16840,16842,0,
16823,16832,16843,0,
16835,16754,16844,0,
16836,0,16845,2,
16837,16277,16846,1,
16831,16841,16847,0,
16827,16843,16848,1,
16842,16834,16849,0,
16843,16827,16850,0,
16842,0,16851,2,
16844,0,16852,2,
16846,16219,16853,1,
16848,0,16854,2,
4014,16851,16855,0,
16833,16850,16856,1,
16850,16833,16857,0,
16101,16853,16858,1,
16849,0,16859,2,
5553,16857,16860,1,
16849,16854,16861,0,
4014,16859,16862,0,
16834,16855,16863,1,
16856,0,16864,2,
16847,16863,16865,0,
16861,0,16866,2,
16848,16862,16867,1,
16861,16864,16868,0,
16860,5588,16869,1,
16867,0,16870,2,
211,16869,16871,1,
16868,0,16872,2,
4014,16866,16873,0,
16865,16870,16874,0,
4014,16872,16875,0,
16858,16871,16876,1,
16856,16873,16877,1,
16876,0,16878,2,
16876,16875,16879,1,
16877,0,16880,2,
16874,16880,16881,0,
16879,0,16882,2,
16868,16878,16883,0,
16881,16882,16884,0,
16883,0,16885,2,
16883,388,16886,0,
4014,16885,16887,0,
678,16886,16888,0,
16886,0,16889,2,
388,16887,16890,1,
16888,0,16891,2,
16888,996,16892,0,
4014,16889,16893,0,
16884,16890,16894,0,
389,16893,16895,1,
16892,0,16896,2,
4014,16891,16897,0,
2935,16892,16898,0,
16895,0,16899,2,
16898,0,16900,2,
996,16897,16901,1,
16898,3472,16902,0,
4014,16896,16903,0,
16894,16899,16904,0,
16899,16901,16905,0,
16902,3772,16906,0,
2120,16903,16907,1,
16902,0,16908,2,
4014,16900,16909,0,
16904,16901,16910,0,
16907,0,16911,2,
4014,16908,16912,0,
16906,0,16913,2,
2934,16909,16914,1,
16910,16911,16915,0,
16914,0,16916,2,
3772,16912,16917,1,
4014,16913,16918,0,
16915,16916,16919,0,
16911,16917,16920,0,
3783,16918,16921,1,
16919,16917,16922,0,
16920,16921,16923,0,
16921,16845,16924,0,
16746,16921,16925,0,
16689,16921,16926,0,
16596,16921,16927,0,
16662,16921,16928,0,
16654,16921,16929,0,
16917,16921,16930,0,
16922,16921,16931,0,
16924,16922,16932,0,
16925,16922,16933,0,
16927,16922,16934,0,
16928,16922,16935,0,
16926,16922,16936,0,
16929,16922,16937,0,
16931,16838,16938,0,
16933,0,16939,2,
16931,16844,16940,0,
16931,16852,16941,0,
16937,0,16942,2,
16931,16794,16943,0,
16931,16742,16944,0,
16932,0,16945,2,
16931,16612,16946,0,
16931,16510,16947,0,
16934,0,16948,2,
16936,0,16949,2,
16935,0,16950,2,
16931,16793,16951,0,
16941,0,16952,2,
16938,0,16953,2,
16905,16945,16954,0,
16940,0,16955,2,
16939,16916,16956,0,
16951,0,16957,2,
16947,0,16958,2,
16943,0,16959,2,
16880,16942,16960,0,
16948,16870,16961,0,
16882,16950,16962,0,
16794,16298,16963,1,
16963,16941,16964,0,
16794,16964,16965,1,
16941,16263,16966,0,
16890,16949,16967,0,
16941,16715,16968,0,
16941,16774,16969,0,
16941,16772,16970,0,
16737,16941,16971,0,
16941,16365,16972,0,
16941,16445,16973,0,
16944,0,16974,2,
16298,16940,16975,0,
16946,0,16976,2,
16930,16953,16977,0,
16958,16841,16978,0,
16972,0,16979,2,
16973,0,16980,2,
16974,16911,16981,0,
16976,16863,16982,0,
16962,0,16983,2,
16960,0,16984,2,
16961,0,16985,2,
16968,0,16986,2,
16969,0,16987,2,
16970,0,16988,2,
16975,0,16989,2,
16971,0,16990,2,
16923,16955,16991,0,
16967,0,16992,2,
16510,16952,16993,0,
16737,16952,16994,0,
16445,16952,16995,0,
16923,16956,16996,0,
16960,16961,16997,0,
16962,16967,16998,0,
16956,16954,16999,0,
16952,16742,17000,0,
16957,16977,17001,0,
16978,0,17002,2,
16991,16974,17003,0,
16954,16992,17004,0,
16991,16956,17005,0,
16990,16901,17006,0,
16998,16997,17007,0,
16821,16980,17008,0,
16802,16979,17009,0,
16982,0,17010,2,
16921,16988,17011,0,
16959,16989,17012,0,
16954,16983,17013,0,
16999,17003,17014,0,
17001,16989,17015,0,
17004,17003,17016,0,
16954,17002,17017,0,
17012,16957,17018,0,
17008,0,17019,2,
17009,0,17020,2,
17013,16996,17021,0,
16954,17010,17022,0,
17014,0,17023,2,
17015,17007,17024,1,
17024,17014,17025,0,
17015,17025,17026,1,
17014,16952,17027,0,
17021,0,17028,2,
16994,16995,17029,1,
17029,17014,17030,0,
16994,17030,17031,1,
17016,0,17032,2,
16967,16966,17033,1,
17033,17014,17034,0,
16967,17034,17035,1,
17000,16993,17036,1,
17036,17014,17037,0,
17000,17037,17038,1,
16941,17014,17039,1,
17014,16984,17040,0,
17014,16985,17041,0,
17014,17020,17042,0,
17017,17005,17043,0,
17014,17019,17044,0,
17022,17003,17045,0,
17042,0,17046,2,
16952,17023,17047,0,
17026,0,17048,2,
17027,16612,17049,0,
17044,0,17050,2,
17032,17028,17051,0,
17019,17023,17052,0,
17027,16774,17053,0,
17027,16772,17054,0,
16793,17027,17055,0,
16965,17023,17056,0,
17027,16689,17057,0,
17027,16746,17058,0,
17010,17023,17059,0,
17023,16983,17060,0,
17027,16737,17061,0,
17023,16984,17062,0,
17023,16985,17063,0,
17002,17023,17064,0,
17027,16742,17065,0,
17027,16662,17066,0,
17027,16715,17067,0,
17020,17023,17068,0,
17027,16805,17069,0,
17027,16596,17070,0,
17035,0,17071,2,
17027,16365,17072,0,
17038,17026,17073,0,
17040,0,17074,2,
17027,16298,17075,0,
17045,0,17076,2,
17043,0,17077,2,
17027,16654,17078,0,
17031,17026,17079,0,
17012,17032,17080,0,
17041,0,17081,2,
17047,16365,17082,0,
17047,16689,17083,0,
17047,16772,17084,0,
17078,0,17085,2,
17047,16955,17086,0,
16956,17076,17087,0,
17051,17018,17088,0,
17047,17026,17089,0,
16981,17077,17090,0,
17047,16793,17091,0,
17060,0,17092,2,
17047,16774,17093,0,
17055,0,17094,2,
17054,0,17095,2,
17062,0,17096,2,
17052,0,17097,2,
17064,0,17098,2,
17065,0,17099,2,
17058,0,17100,2,
17068,0,17101,2,
17059,0,17102,2,
17063,0,17103,2,
17053,0,17104,2,
17061,0,17105,2,
17067,0,17106,2,
17057,0,17107,2,
17056,0,17108,2,
17066,0,17109,2,
17069,0,17110,2,
17070,0,17111,2,
17046,16899,17112,0,
17047,16715,17113,0,
17048,17031,17114,0,
17072,0,17115,2,
17073,0,17116,2,
16917,17081,17117,0,
17006,17050,17118,0,
17047,16654,17119,0,
17047,16746,17120,0,
17047,16445,17121,0,
16596,17047,17122,0,
16662,17047,17123,0,
17049,0,17124,2,
17075,0,17125,2,
17011,17074,17126,0,
17048,17038,17127,0,
17088,17048,17128,0,
17084,0,17129,2,
17071,17110,17130,0,
17127,0,17131,2,
17087,0,17132,2,
17087,17048,17133,0,
17095,17096,17134,0,
17091,0,17135,2,
17104,17103,17136,0,
17101,17106,17137,0,
17098,17099,17138,0,
17093,0,17139,2,
17102,17100,17140,0,
17094,17092,17141,0,
17107,17108,17142,0,
17097,17105,17143,0,
17112,16986,17144,0,
17113,0,17145,2,
17089,16654,17146,0,
17114,0,17147,2,
17117,16987,17148,0,
17086,0,17149,2,
17118,17048,17150,0,
17119,17048,17151,0,
17086,132,17152,0,
17089,16596,17153,0,
17123,17048,17154,0,
17089,16510,17155,0,
17089,16612,17156,0,
17089,16662,17157,0,
17118,0,17158,2,
17120,0,17159,2,
17083,0,17160,2,
17090,0,17161,2,
17132,17026,17162,0,
17129,17085,17163,0,
17157,0,17164,2,
17125,17160,17165,0,
17026,17161,17166,0,
17156,0,17167,2,
17130,0,17168,2,
17135,17109,17169,0,
17138,0,17170,2,
17137,0,17171,2,
17143,0,17172,2,
17134,0,17173,2,
17136,0,17174,2,
17142,0,17175,2,
17140,0,17176,2,
17139,17111,17177,0,
17141,0,17178,2,
17130,17048,17179,0,
17144,0,17180,2,
17146,0,17181,2,
17115,17145,17182,0,
17148,0,17183,2,
17090,17141,17184,1,
17184,17026,17185,0,
17090,17185,17186,1,
17134,17026,17187,0,
17128,0,17188,2,
17118,17128,17189,0,
17152,0,17190,2,
17087,17128,17191,0,
17151,0,17192,2,
17026,17158,17193,0,
17153,0,17194,2,
17154,0,17195,2,
17155,0,17196,2,
17159,17124,17197,0,
17164,17131,17198,0,
17162,0,17199,2,
17166,0,17200,2,
17182,0,17201,2,
17165,0,17202,2,
17128,17168,17203,0,
17197,0,17204,2,
17163,0,17205,2,
17169,0,17206,2,
17175,17026,17207,0,
17048,17176,17208,0,
17048,17174,17209,0,
17171,17026,17210,0,
17172,17026,17211,0,
17048,17173,17212,0,
17176,17026,17213,0,
17170,17026,17214,0,
17048,17178,17215,0,
17177,0,17216,2,
17048,17172,17217,0,
17048,17170,17218,0,
17128,17173,17219,0,
17128,17172,17220,0,
17128,17170,17221,0,
17128,17174,17222,0,
17128,17176,17223,0,
17048,17175,17224,0,
17174,17026,17225,0,
17048,17171,17226,0,
17048,17180,17227,0,
17128,17175,17228,0,
17128,17171,17229,0,
17181,17147,17230,0,
17128,17178,17231,0,
17186,0,17232,2,
17196,17195,17233,0,
17128,17180,17234,0,
17026,17168,17235,0,
17193,0,17236,2,
17189,0,17237,2,
17191,0,17238,2,
17233,0,17239,2,
17080,17199,17240,0,
17200,17202,17241,0,
17088,17199,17242,0,
17048,17202,17243,0,
17203,0,17244,2,
17048,17205,17245,0,
17026,17199,17246,0,
17206,17200,17247,0,
17205,17200,17248,0,
17175,17200,17249,0,
17171,17200,17250,0,
17172,17200,17251,0,
17206,17026,17252,0,
17216,17200,17253,0,
17204,17200,17254,0,
17205,17026,17255,0,
17170,17200,17256,0,
17219,0,17257,2,
17216,17026,17258,0,
17048,17206,17259,0,
17222,0,17260,2,
17221,0,17261,2,
17220,0,17262,2,
17223,0,17263,2,
17204,17026,17264,0,
17229,0,17265,2,
17228,0,17266,2,
17224,0,17267,2,
17226,0,17268,2,
17048,17204,17269,0,
17048,17216,17270,0,
17201,17200,17271,0,
17230,0,17272,2,
17200,17031,17273,0,
17231,0,17274,2,
17198,0,17275,2,
17038,17200,17276,0,
17128,17216,17277,0,
17128,17205,17278,0,
17201,17026,17279,0,
17128,17206,17280,0,
17026,17202,17281,0,
17234,0,17282,2,
17236,17126,17283,0,
17201,17048,17284,0,
17026,17200,17285,0,
17128,17204,17286,0,
17200,17028,17287,0,
17082,17200,17288,0,
17126,17236,17289,0,
17122,17288,17290,1,
17290,17026,17291,0,
17122,17291,17292,1,
17289,0,17293,2,
17242,17200,17294,0,
17243,0,17295,2,
17286,0,17296,2,
17246,17200,17297,0,
17251,17246,17298,0,
17248,17246,17299,0,
17250,17246,17300,0,
17247,17246,17301,0,
17249,17246,17302,0,
17253,17246,17303,0,
17254,17246,17304,0,
17259,0,17305,2,
17256,17246,17306,0,
17264,0,17307,2,
17258,0,17308,2,
17271,17246,17309,0,
17276,17246,17310,0,
17273,17246,17311,0,
17278,0,17312,2,
17277,0,17313,2,
17280,0,17314,2,
17287,16957,17315,0,
17285,17121,17316,0,
17284,0,17317,2,
17241,17246,17318,0,
17297,17134,17319,0,
17194,17317,17320,0,
17294,0,17321,2,
17292,0,17322,2,
17318,0,17323,2,
17298,0,17324,2,
17300,0,17325,2,
17301,0,17326,2,
17299,0,17327,2,
17302,0,17328,2,
17303,0,17329,2,
17304,0,17330,2,
17306,0,17331,2,
17308,17268,17332,0,
17305,17116,17333,0,
17267,17307,17334,0,
17294,17272,17335,0,
17294,17275,17336,0,
17294,17183,17337,0,
17297,17180,17338,0,
17311,0,17339,2,
17310,0,17340,2,
17309,0,17341,2,
17167,17295,17342,0,
17297,17174,17343,0,
17316,17199,17344,0,
17297,17168,17345,0,
17148,17186,17346,1,
17346,17294,17347,0,
17148,17347,17348,1,
17297,17140,17349,0,
17294,17293,17350,0,
17319,0,17351,2,
17079,17321,17352,0,
17198,17320,17353,1,
17353,17294,17354,0,
17198,17354,17355,1,
17350,0,17356,2,
17133,17321,17357,0,
17349,0,17358,2,
17212,17321,17359,0,
17207,17321,17360,0,
17213,17321,17361,0,
17179,17321,17362,0,
17209,17321,17363,0,
17215,17321,17364,0,
17210,17321,17365,0,
17208,17321,17366,0,
17211,17321,17367,0,
17214,17321,17368,0,
17217,17321,17369,0,
17255,17321,17370,0,
17218,17321,17371,0,
17252,17321,17372,0,
17261,17326,17373,0,
17262,17327,17374,0,
17328,17263,17375,0,
17325,17260,17376,0,
17225,17321,17377,0,
17324,17257,17378,0,
17227,17321,17379,0,
17265,17329,17380,0,
17266,17330,17381,0,
17331,17274,17382,0,
17269,17321,17383,0,
17333,0,17384,2,
17332,0,17385,2,
17334,0,17386,2,
17270,17321,17387,0,
17336,0,17388,2,
17279,17321,17389,0,
17335,0,17390,2,
17281,17321,17391,0,
17337,0,17392,2,
17312,17339,17393,0,
17314,17340,17394,0,
17313,17341,17395,0,
17338,0,17396,2,
17321,17026,17397,0,
17342,0,17398,2,
17320,17233,17399,1,
17399,17294,17400,0,
17320,17400,17401,1,
17343,0,17402,2,
17232,17321,17403,0,
17187,17321,17404,0,
17150,17321,17405,0,
17283,17321,17406,0,
17235,17321,17407,0,
17344,0,17408,2,
17345,0,17409,2,
17296,17323,17410,0,
17245,17321,17411,0,
17239,17321,17412,0,
17357,0,17413,2,
17240,17356,17414,0,
17352,0,17415,2,
17192,17408,17416,0,
17412,0,17417,2,
17368,0,17418,2,
17364,0,17419,2,
17362,0,17420,2,
17361,0,17421,2,
17363,0,17422,2,
17365,0,17423,2,
17366,0,17424,2,
17360,0,17425,2,
17359,0,17426,2,
17367,0,17427,2,
17372,0,17428,2,
17369,0,17429,2,
17370,0,17430,2,
17371,0,17431,2,
17377,0,17432,2,
17379,0,17433,2,
17385,17321,17434,0,
17387,0,17435,2,
17386,17321,17436,0,
17383,0,17437,2,
17384,17321,17438,0,
17391,0,17439,2,
17389,0,17440,2,
17396,17392,17441,0,
17397,17180,17442,0,
17405,0,17443,2,
17404,0,17444,2,
17403,0,17445,2,
17402,17282,17446,0,
17401,0,17447,2,
17272,17398,17448,1,
17448,17294,17449,0,
17272,17449,17450,1,
17321,17398,17451,0,
17406,0,17452,2,
17407,0,17453,2,
17358,17244,17454,0,
17411,0,17455,2,
17415,17455,17456,0,
17451,0,17457,2,
17446,17445,17458,0,
17419,17418,17459,0,
17426,17427,17460,0,
17424,17425,17461,0,
17422,17423,17462,0,
17421,17420,17463,0,
17431,17428,17464,0,
17429,17430,17465,0,
17433,17432,17466,0,
17414,0,17467,2,
17437,17390,17468,0,
17435,17388,17469,0,
17438,0,17470,2,
17434,0,17471,2,
17436,0,17472,2,
17315,17414,17473,0,
17442,0,17474,2,
17441,17315,17475,0,
17413,17351,17476,0,
17237,17453,17477,0,
17450,0,17478,2,
17443,17444,17479,0,
17452,17238,17480,0,
17450,17447,17481,1,
17481,17414,17482,0,
17450,17482,17483,1,
17322,17417,17484,0,
17476,17477,17485,0,
17456,17410,17486,0,
17475,0,17487,2,
17468,17439,17488,0,
17454,17479,17489,0,
17463,17378,17490,0,
17461,17374,17491,0,
17462,17373,17492,0,
17460,17375,17493,0,
17459,17376,17494,0,
17465,17381,17495,0,
17464,17380,17496,0,
17466,17382,17497,0,
17397,17467,17498,0,
17355,17478,17499,1,
17499,17414,17500,0,
17355,17500,17501,1,
17395,17470,17502,0,
17393,17472,17503,0,
17416,17457,17504,0,
17394,17471,17505,0,
17469,17440,17506,0,
17473,17441,17507,0,
17480,17409,17508,0,
17458,0,17509,2,
17348,17474,17510,0,
17485,17509,17511,1,
17511,17414,17512,0,
17485,17512,17513,1,
17502,0,17514,2,
17507,0,17515,2,
17486,0,17516,2,
17488,17355,17517,1,
17517,17414,17518,0,
17488,17518,17519,1,
17489,0,17520,2,
17497,0,17521,2,
17490,0,17522,2,
17494,0,17523,2,
17491,0,17524,2,
17492,0,17525,2,
17493,0,17526,2,
17495,0,17527,2,
17496,0,17528,2,
17510,0,17529,2,
17501,0,17530,2,
17498,0,17531,2,
17488,0,17532,2,
17506,0,17533,2,
17505,0,17534,2,
17503,0,17535,2,
17504,0,17536,2,
17508,0,17537,2,
17507,132,17538,0,
17504,17484,17539,1,
17539,17414,17540,0,
17504,17540,17541,1,
17507,230,17542,0,
17514,17516,17543,1,
17543,17414,17544,0,
17514,17544,17545,1,
17534,17535,17546,1,
17546,17414,17547,0,
17534,17547,17548,1,
17414,17537,17549,0,
17523,17526,17550,1,
17550,17414,17551,0,
17523,17551,17552,1,
17521,17522,17553,1,
17553,17414,17554,0,
17521,17554,17555,1,
17533,17532,17556,1,
17556,17414,17557,0,
17533,17557,17558,1,
17527,17534,17559,1,
17559,17414,17560,0,
17527,17560,17561,1,
17535,17514,17562,1,
17562,17414,17563,0,
17535,17563,17564,1,
17489,17521,17565,1,
17565,17414,17566,0,
17489,17566,17567,1,
17541,0,17568,2,
230,17515,17569,0,
17447,17536,17570,1,
17570,17414,17571,0,
17447,17571,17572,1,
17525,17524,17573,1,
17573,17414,17574,0,
17525,17574,17575,1,
17522,17523,17576,1,
17576,17414,17577,0,
17522,17577,17578,1,
17528,17527,17579,1,
17579,17414,17580,0,
17528,17580,17581,1,
17519,0,17582,2,
17516,17533,17583,1,
17583,17414,17584,0,
17516,17584,17585,1,
17524,17528,17586,1,
17586,17414,17587,0,
17524,17587,17588,1,
17529,17485,17589,1,
17589,17414,17590,0,
17529,17590,17591,1,
17508,17529,17592,1,
17592,17414,17593,0,
17508,17593,17594,1,
17526,17525,17595,1,
17595,17414,17596,0,
17526,17596,17597,1,
17531,17188,17598,0,
17458,17520,17599,1,
17599,17414,17600,0,
17458,17600,17601,1,
17483,17572,17602,0,
17564,17545,17603,0,
17549,0,17604,2,
17545,17548,17605,0,
17530,17582,17606,0,
17569,17414,17607,0,
17598,0,17608,2,
17594,17591,17609,0,
17601,0,17610,2,
4014,17569,17611,0,
17552,17578,17612,0,
17568,17572,17613,0,
17572,17568,17614,1,
17588,17581,17615,0,
17597,17575,17616,0,
17578,17555,17617,0,
17581,17588,17618,0,
17585,17558,17619,0,
17561,17564,17620,0,
17552,17555,17621,0,
17558,17585,17622,0,
17621,17578,17623,0,
17602,17568,17624,0,
17610,17513,17625,0,
17487,17604,17626,0,
17605,17606,17627,0,
17620,17619,17628,0,
17607,0,17629,2,
17615,17616,17630,0,
17622,17606,17631,0,
17611,0,17632,2,
17483,17613,17633,1,
17617,17552,17634,0,
17618,17616,17635,0,
17635,17634,17636,0,
17602,17623,17637,0,
17628,17624,17638,0,
17630,17627,17639,0,
17627,17628,17640,0,
17625,17567,17641,0,
17615,17627,17642,0,
17606,17624,17643,0,
17632,105,17644,0,
17624,17530,17645,1,
17631,17624,17646,0,
17530,17624,17647,0,
17568,17626,17648,0,
17646,17603,17649,0,
17648,17635,17650,0,
17638,17627,17651,0,
17639,17638,17652,0,
17641,17609,17653,0,
17638,17552,17654,0,
17638,17575,17655,0,
17545,17646,17656,0,
17642,17638,17657,0,
17582,17647,17658,1,
17558,17643,17659,1,
17545,17646,17660,1,
17636,17567,17661,0,
17644,0,17662,2,
17624,17636,17663,0,
17558,17643,17664,0,
17651,17661,17665,0,
17640,17653,17666,0,
17650,17637,17667,0,
17652,17612,17668,0,
17654,17639,17669,0,
17655,17642,17670,0,
17651,17581,17671,0,
17649,17548,17672,0,
17585,17664,17673,1,
17564,17656,17674,1,
17649,17548,17675,1,
17575,17657,17676,1,
17651,17581,17677,1,
17552,17652,17678,1,
17666,17667,17679,0,
17569,17666,17680,0,
17665,17610,17681,0,
17666,17663,17682,0,
17561,17672,17683,1,
17610,17665,17684,1,
17668,17555,17685,1,
17597,17670,17686,1,
17588,17671,17687,1,
17578,17669,17688,1,
17668,17555,17689,0,
17625,17665,17690,0,
17690,17591,17691,0,
17679,0,17692,2,
17680,17667,17693,0,
17513,17681,17694,1,
17591,17690,17695,1,
17567,17689,17696,1,
17626,17682,17697,1,
17692,17569,17698,0,
17693,0,17699,2,
17693,17608,17700,0,
17594,17691,17701,1,
17693,17467,17702,0,
17698,0,17703,2,
17698,17039,17704,0,
17700,0,17705,2,
17698,17014,17706,0,
17698,17149,17707,0,
132,17699,17708,0,
17698,17683,17709,0,
17698,17677,17710,0,
17698,17645,17711,0,
17698,17675,17712,0,
17698,17633,17713,0,
17698,17687,17714,0,
17698,17673,17715,0,
17698,17659,17716,0,
17698,17660,17717,0,
17698,17658,17718,0,
17698,17674,17719,0,
17698,17676,17720,0,
17698,17685,17721,0,
17698,17688,17722,0,
17698,17696,17723,0,
17698,17697,17724,0,
17698,17701,17725,0,
17698,17684,17726,0,
17698,17694,17727,0,
17698,17695,17728,0,
17698,17614,17729,0,
17698,17686,17730,0,
17698,17678,17731,0,
17703,17629,17732,0,
17707,0,17733,2,
17706,0,17734,2,
17704,0,17735,2,
132,17703,17736,0,
17703,17699,17737,1,
17737,17414,17738,0,
17703,17738,17739,1,
132,17705,17740,0,
17708,17149,17741,0,
17732,0,17742,2,
132,17733,17743,0,
17736,0,17744,2,
132,17739,17745,0,
132,17735,17746,0,
132,17734,17747,0,
17741,0,17748,2,
17742,17702,17749,1,
17749,17294,17750,0,
17742,17750,17751,1,
17048,17742,17752,0,
17190,17744,17753,0,
17746,0,17754,2,
17745,0,17755,2,
17743,0,17756,2,
17747,0,17757,2,
17752,0,17758,2,
17751,0,17759,2,
17759,132,17760,0,
17740,17758,17761,0,
17761,0,17762,2,
17760,0,17763,2,
0,0,17764,1,
17764,17729,17765,1,
17764,17713,17766,1,
17764,17711,17767,1,
17764,17718,17768,1,
17764,17716,17769,1,
17764,17715,17770,1,
17764,17717,17771,1,
17764,17719,17772,1,
17764,17712,17773,1,
17764,17709,17774,1,
17764,17710,17775,1,
17764,17714,17776,1,
17764,17720,17777,1,
17764,17730,17778,1,
17764,17731,17779,1,
17764,17722,17780,1,
17764,17721,17781,1,
17764,17723,17782,1,
17764,17726,17783,1,
17764,17727,17784,1,
17764,17728,17785,1,
17764,17725,17786,1,
17764,17724,17787,1,
17764,17755,17788,1,
17764,17763,17789,1,
17764,17762,17790,1,
17764,17757,17791,1,
17764,17754,17792,1,
17764,17756,17793,1,
17764,17753,17794,1,
17764,17748,17795,1,
17764,17662,17796,1,
