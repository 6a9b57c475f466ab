from pcommon import *
H = "h_lists.py"
Q = TIER == "quick"
S2 = [["<9s", True], ["<d", False]]
jobs = [PJob("entries_1", H, "custom_entries", {"n": 1}, what="which custom field entries are taken", bounds="one entry of every kind, 9 structs", covers=["done", "malformed"]),
        PJob("entries_2", H, "custom_entries", {"n": 2, "structs": S2, "others": ["absent", "names", "number"]}, what="entries do not affect each other", bounds="every pair of entries", covers=["done", "malformed"]),
        PJob("entries_3", H, "custom_entries", {"n": 3, "structs": S2[:1] if Q else S2, "others": ["absent"] if Q else ["absent", "names"]}, what="entries do not affect each other", bounds="every triple of entries", covers=["done", "malformed"]),
        PJob("size", H, "custom_size", what="the struct's size decides", bounds="every two digit repeat counts over 16 pairs of format characters", covers=["taken", "refused"]),
        PJob("text", H, "custom_text", what="text that is no JSON object", bounds="8 texts", covers=["done"]),
        PJob("refresh", H, "refreshed", {"custom": True}, what="download, save, fall back", bounds="every outcome of the download and of each file access", covers=["downloaded", "local", "built in", "no download"])]
if __name__ == "__main__":
    sys.exit(PCheck("P14", jobs, assumptions=["json.loads delivers an arbitrary document of the listed kinds", "requests and open are stand-ins that fail at will"]).main())
