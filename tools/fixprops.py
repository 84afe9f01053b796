PR.update({'074d3f2':'C03','88d85c2':'C02','12a9195':'C02','76ba04e':'C08','357bbe7':'C13','e4fe80c':'C09','ffab78c':'C08','d3666ea':'C19','a15f18c':'C06','3f2d41d':'C19','e511ee1':'C19','80dbdb3':'C20','fe07b2a':'C20','039c990':'C18','802fe17':'C26','60f225b':'C01','dcec5bb':'C25','c1a548d':'C14','7f91cf9':'C14','5387d31':'C15','b6c076a':'C28','8a17bb1':'C11','644c2bb':'C26','18029d3':'C15','bd40c4e':'C21','70ac09e':'C23','4647523':'C29','50570a5':'C10','3c0a582':'C11','925c7cc':'C01','af754b0':'C24','d2cc461':'C01'})
PR.update({'b448454':'C16','662309c':'C17','a85e596':'C04','e063e9b':'C17','bcc610e':'C14','f350c12':'C03','75702fb':'C23','9524497':'C23','9f000d1':'C26','c697efa':'C22','f116f3d':'C22','6dacbbc':'C22','77618a7':'C25','d0c36a3':'C07','37428b5':'C06','bb833d9':'C09','d2e485a':'C24','ed0936e':'C30','eb45e19':'C24','3ab92d9':'C24'})
PR.update({'ce7175f':'C06','0c91f34':'C10'})
PR.update({'37250b0':'C16','7796359':'C19','e7691a3':'C19','6516531':'C18'})
PR.update({'ee43a28':'C30'})
PR.update({h:'C27' for h in ('a6d5e13','b7d3f21','cd8e9eb','23d9ced','2be9908')})
PR.update({'9d2c881':'C11','df2a011':'C11'})
PR.update({'cc77520':'C31'})
PR.update({'2410a7b':'C06'})
PR.update({'1b749e9':'C17'})
PR.update({'6df294d':'C06'})
PR.update({'32026ff':'C26'})
PR['FINDINGS']=[{'property':'C23','sig':'mixed-page-sizes','what':"a page imported from a file whose pages have different boxes is cut to and scaled by the box of the file's first page: gofpdi's PdfWriter.ImportPage reads getPageBoxes(1) whatever the page (reached from ImportPage, ImportPageStream, ImportPagesFromSource); any file with pages of different size shows it, e.g. page 2 of a file with /MediaBox [0 0 612 792] and [0 0 200 300]"}]
