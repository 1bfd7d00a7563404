CH.update({
"C02":("schedules, core counts, models and directions; independent sectioning oracle over the returned layers","exploration"),
"C03":("schedules, core counts, stalls and degenerate models; deadlock, lost shares, stranded workers and bounded steps","exploration"),
"C04":("interleavings of concurrent callers; comparison with each call alone and race detection on the simulated schedules","exploration"),
"C05":("call histories and schedules; comparison with each call in a fresh simulated process and of inputs before and after","exploration"),
"C14":("jobs, models, planes and schedules; a simulated printer executes the G-code and is compared with the job","exploration"),
"C06":("I/O faults, short reads, files damaged or changing while read, schedules; exact model of the file as oracle","fault_enumeration"),
"C07":("I/O faults, full disks, short writes and histories of saves; exact file contents and reload as oracle","fault_enumeration"),
"C18":("I/O faults and call histories; the simulated handle table after every call","fault_enumeration"),
"C19":("damaged models, extreme options, schedules and I/O faults; the way the simulated process ends","exploration"),
"C20":("crash points and I/O faults of a writing run followed by a simulated reading run on the same disk; the complete file as oracle","fault_enumeration"),
"C21":("histories of killed and failed runs on one simulated disk; a run on a fresh disk as oracle","fault_enumeration"),
"C22":("models, planes, schedules and pipelines of two simulated tools; a simulated printer executes the G-code and its history of bed movements is undone; the model as oracle","exploration"),
})
