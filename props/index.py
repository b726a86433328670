MODULES = {"P01": "m_frames", "P02": "m_frames", "P03": "m_frames", "P24": "m_frames", "P27": "m_frames",
           "P06": "m_stream", "P07": "m_stream", "P13": "m_stream", "P26": "m_stream",
           "P08": "m_auth", "P09": "m_auth", "P10": "m_auth", "P11": "m_auth",
           "P12": "m_client", "P20": "m_client", "P21": "m_client", "P22": "m_client",
           "P14": "m_items", "P15": "m_items", "P16": "m_items", "P17": "m_items", "P18": "m_items", "P19": "m_items",
           "P25": "m_items", "P04": "m_time", "P05": "m_tags", "P23": "m_tags", "P28": "m_tags"}
